------------------------------ MODULE DiffTrace ------------------------------
(***************************************************************************)
(* C22: recorded evaluations of constraints.  A record has                       *)
(*   eager, jit      values of the eager and the compiled evaluations, as fixed-point  *)
(*                   numbers in a unit of 10^-9 of the greatest of them               *)
(*   finite          is every derivative finite?                               *)
(*   cols            [mentioned, jac, quo, ok]: derivatives by one coordinate, and       *)
(*                   difference quotients of the eager evaluation, in a unit of 10^-6   *)
(*                   of the greatest; ok: do the quotients agree for several steps?      *)
(* The verdict of a record is the set of clauses that it breaks.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
CONSTANTS ValueTol, SlopeTol
VARIABLES n
Init == n \in 1..Len(Data)
Next == FALSE /\ UNCHANGED n
Spec == Init /\ [][Next]_n
Rec == Data[n]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Same(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Near(u[i], v[i], tol)
Verdict ==
    {c \in {"compiled", "finite", "derivative", "uninvolved"} :
        CASE c = "compiled" -> \E i \in DOMAIN Rec.jit : ~Same(Rec.eager, Rec.jit[i], ValueTol)
          [] c = "finite" -> ~Rec.finite
          [] c = "derivative" -> Rec.finite /\ \E k \in DOMAIN Rec.cols :
                Rec.cols[k].ok /\ ~Same(Rec.cols[k].jac, Rec.cols[k].quo, SlopeTol)
          [] c = "uninvolved" -> Rec.finite /\ \E k \in DOMAIN Rec.cols :
                ~Rec.cols[k].mentioned /\ \E r \in DOMAIN Rec.cols[k].jac : Rec.cols[k].jac[r] # 0}
Emit == PrintT("@" \o ToJson([n |-> n, broken |-> Verdict]))
=============================================================================
