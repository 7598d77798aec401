--------------------------- MODULE IterationTrace ---------------------------
(***************************************************************************)
(* Recorded runs of the real solver.  Floating point numbers are given as their    *)
(* order keys: three numbers that compare lexicographically as the floats do         *)
(* (not-a-number is above everything).                                          *)
(*                                                                         *)
(* A run: [method, absTol, relTol, maxIter, abs, rel, checks, limited]            *)
(*   checks[k] = [normOff, normTol, relOff, relTol]                              *)
(*       how far the k-th reported error is from the 2-norm of the residual of      *)
(*       the iterate and from its ratio to the first one, and how far that may be     *)
(*   last      [off, tol]: the same for the returned iterate (minimize), empty for    *)
(*       newton, whose returned iterate is the one after the last reported error       *)
(*   limited   the runs limited to fewer iterations: [maxIter, len, same]             *)
(*       same: which of its entries are those of this run                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES r, k, verdict
vars == <<r, k, verdict>>
I == INSTANCE Iteration WITH Oracles <- {}, Tols <- {}, MaxIters <- {}, Methods <- {},
    oracle <- <<>>, method <- "", absTol <- 0, relTol <- 0, maxIter <- 0, errs <- <<>>, done <- FALSE
Run == Runs[r]

Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Leq(a, b) == ~Lt(b, a)

\* a minimization may or may not go on when the error equals a tolerance
Meets(i) == i > 0 /\ (Leq(Run.abs[i], Run.absTol) \/ Leq(Run.rel[i], Run.relTol))
\* after a first error of zero relative errors mean nothing
NaN == <<4194304, 0, 0>>
Undefined(i) == i > 0 /\ Run.rel[i] = NaN
Passes(i) == i > 0 /\ (Lt(Run.abs[i], Run.absTol) \/ Lt(Run.rel[i], Run.relTol))
MustStop(i) == IF Run.method = "newton" THEN Meets(i) ELSE Passes(i)

Entry(i) ==
    IF ~I!MayIterate(i - 1, Run.maxIter, MustStop(i - 1)) THEN
        IF i > Run.maxIter THEN "too-many-iterations" ELSE "continues-below-tolerance"
    ELSE IF ~Leq(Run.checks[i].normOff, Run.checks[i].normTol) THEN "absolute-error"
    ELSE IF ~Leq(Run.checks[i].relOff, Run.checks[i].relTol) THEN "relative-error"
    ELSE "ok"
End ==
    IF Len(Run.rel) # Len(Run.abs) THEN "histories-differ-in-length"
    ELSE IF ~I!MayStop(Run.method, Len(Run.abs), Run.maxIter, Meets(Len(Run.abs)) \/ Undefined(Len(Run.abs))) THEN "stops-early"
    ELSE IF Run.last # <<>> /\ ~Leq(Run.last[1], Run.last[2]) THEN "returned-iterate"
    ELSE IF \E i \in DOMAIN Run.limited :
        LET m == Run.limited[i].maxIter
            n == IF m < Len(Run.abs) THEN m ELSE Len(Run.abs)
        IN Run.limited[i].len # n \/ \E j \in 1..n : ~Run.limited[i].same[j] THEN "not-a-prefix"
    ELSE "accepted"

Init == r \in 1..Len(Runs) /\ k = 0 /\ verdict = "ok"
Next == /\ verdict = "ok" /\ r' = r /\ k' = k + 1
        /\ verdict' = IF k < Len(Run.abs) /\ k < Len(Run.rel) THEN Entry(k + 1) ELSE End
        /\ (verdict' \notin {"ok", "accepted"}) =>
               PrintT("@" \o ToJson([r |-> r, k |-> k, clause |-> verdict']))
Spec == Init /\ [][Next]_vars
=============================================================================
