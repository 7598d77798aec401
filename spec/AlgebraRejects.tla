--------------------------- MODULE AlgebraRejects ---------------------------
(***************************************************************************)
(* C09: which sums can be formed and which targets are accepted.              *)
(* The driver records calls, some of them with a target of another size (at   *)
(* the call, or frozen), or sums of operands with another number of outputs.   *)
(***************************************************************************)
EXTENDS Algebra, Json, IOUtils

VARIABLE x
Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}
Init == x \in Recorded
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x

Formed == WellTyped(x.e)
Accepted == Formed /\ Frozen(x.e) /\ FitsParams(x.e, x.params)
\* what is accepted has one value per declared output
SizeOk == Accepted => Len(Eval(x.e, x.prims, x.params)) = Total(x.e)
Emit == PrintT("@" \o ToJson([case |-> x, kinds |-> Kinds(x.e), accepted |-> Accepted]))
=============================================================================
