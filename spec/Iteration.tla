------------------------------ MODULE Iteration ------------------------------
(***************************************************************************)
(* C17: how the solver iterates.  The errors it would meet are an oracle; a run    *)
(* reports them one by one until it must stop.                                *)
(*                                                                         *)
(* Here errors and tolerances are powers of some number, given by their          *)
(* exponents: errors have even ones and tolerances odd ones, so relative errors     *)
(* are differences.  IterationTrace uses the same rules on real floating point      *)
(* numbers.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

\* -- the rules; Below says whether an error meets the tolerances ----------------
MayIterate(len, maxIter, below) == len < maxIter /\ (len = 0 \/ ~below)
\* newton stops for no other reason, minimize may give up earlier
MayStop(method, len, maxIter, below) ==
    method = "minimize" \/ len = maxIter \/ (len > 0 /\ below)

-----------------------------------------------------------------------------
CONSTANTS Oracles, Tols, MaxIters, Methods
VARIABLES oracle, method, absTol, relTol, maxIter, errs, done
vars == <<oracle, method, absTol, relTol, maxIter, errs, done>>

Init == /\ oracle \in Oracles /\ method \in Methods
        /\ absTol \in Tols /\ relTol \in Tols /\ maxIter \in MaxIters
        /\ errs = <<>> /\ done = FALSE
Below(s) == s # <<>> /\ (s[Len(s)] <= absTol \/ s[Len(s)] - s[1] <= relTol)
Iterate == /\ ~done /\ MayIterate(Len(errs), maxIter, Below(errs)) /\ Len(errs) < Len(oracle)
           /\ errs' = Append(errs, oracle[Len(errs) + 1])
           /\ UNCHANGED <<oracle, method, absTol, relTol, maxIter, done>>
Stop == /\ ~done /\ MayStop(method, Len(errs), maxIter, Below(errs))
        /\ done' = TRUE /\ UNCHANGED <<oracle, method, absTol, relTol, maxIter, errs>>
Next == Iterate \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what the properties promise
NeverTooMany == Len(errs) <= maxIter
StopsAtFirst == \A k \in 1..(Len(errs) - 1) : ~Below(SubSeq(errs, 1, k))
NotBefore == (done /\ method = "newton") => (Len(errs) = maxIter \/ Below(errs))
\* the run of a Newton iteration limited to m iterations, all at once
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RunOf(m) == LET hits == {k \in 1..m : Below(SubSeq(oracle, 1, k))}
            IN SubSeq(oracle, 1, IF hits = {} THEN m ELSE MinOf(hits))
Prefix == (done /\ method = "newton") =>
    /\ errs = RunOf(maxIter)
    /\ \A m \in 0..maxIter : RunOf(m) = SubSeq(errs, 1, IF m < Len(errs) THEN m ELSE Len(errs))

\* errors of a geometric iteration: start exponent and slope
Depth == 6
Geometric == {[k \in 1..Depth |-> 2 * (s + d * (k - 1))] : s \in {-2, 0, 3}, d \in {-1, 0, 1}}
AnySequence == [1..4 -> {-2, 0, 2}]
OddTols == {-99, -9, -5, -3, -1, 1, 3, 7}
SmallTols == {-3, -1, 1}
UpToDepth == 0..Depth
UpTo4 == 0..4
Both == {"newton", "minimize"}
Newton == {"newton"}
Emit == done => PrintT("@" \o ToJson([start |-> oracle[1] \div 2, slope |-> (oracle[2] - oracle[1]) \div 2,
    absTol |-> absTol, relTol |-> relTol, maxIter |-> maxIter,
    errs |-> errs, rels |-> [k \in DOMAIN errs |-> errs[k] - errs[1]]]))
=============================================================================
