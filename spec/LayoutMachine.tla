--------------------------- MODULE LayoutMachine ---------------------------
(***************************************************************************)
(* C05, C06: the design of a layout: three maps that stay in step and a        *)
(* counter that proposes names.  TLC explores every history of accepted and     *)
(* rejected additions and of rebuilding the layout from its trees; the           *)
(* histories are then performed on the code and validated by LayoutTrace.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS CKinds,       \* kinds of constraints
          Names,       \* explicit names that are tried
          Whys,        \* reasons for a rejection
          WithRebuild, Depth

Kinds2 == {"H", "S"}
Names3 == {"H0", "H1", "S0"}
Whys1 == {"params"}
Kinds1 == {"H"}
KindsC == {"H", "S", "U"}
NamesC == {"H0", "a"}
WhysC == {"prim", "kind", "params", "nested"}

VARIABLES cons, keys, pars, counter, h
vars == <<cons, keys, pars, counter, h>>
\* cons, keys, pars: sequences of [name, x], the three trees of a layout

Init == cons = <<>> /\ keys = <<>> /\ pars = <<>> /\ h = <<>> /\ counter = [k \in CKinds |-> 0]

NamesIn(t) == {t[i].name : i \in DOMAIN t}
\* the first name the counter proposes that is free in all trees
RECURSIVE Propose(_, _)
Propose(k, n) == LET name == k \o ToString(n) IN
    IF name \in NamesIn(cons) \cup NamesIn(keys) \cup NamesIn(pars) THEN Propose(k, n + 1) ELSE n

Store(name, k) ==
    /\ cons' = Append(cons, [name |-> name, x |-> k])
    /\ keys' = Append(keys, [name |-> name, x |-> k])
    /\ pars' = Append(pars, [name |-> name, x |-> k])
Keep == UNCHANGED <<cons, keys, pars>>
Log(op) == Len(h) < Depth /\ h' = Append(h, op)

Auto(k) == /\ Log([op |-> "auto", kind |-> k, name |-> "", why |-> ""])
           /\ LET n == Propose(k, counter[k]) IN
              /\ Store(k \o ToString(n), k)
              /\ counter' = [counter EXCEPT ![k] = n + 1]
Named(k, name) ==
    /\ Log([op |-> "named", kind |-> k, name |-> name, why |-> ""])
    /\ IF name \in NamesIn(cons) THEN Keep ELSE Store(name, k)
    /\ UNCHANGED counter
\* a rejected addition without a name may use up names, nothing else
Reject(k, name, why) ==
    /\ Log([op |-> IF name = "" THEN "auto" ELSE "named", kind |-> k, name |-> name, why |-> why])
    /\ Keep
    /\ \E used \in (IF name = "" THEN {0, 1} ELSE {0}) : counter' = [counter EXCEPT ![k] = @ + used]
\* a new layout object around the same trees starts counting again
Rebuild == /\ WithRebuild /\ h # <<>> /\ Log([op |-> "rebuild", kind |-> "", name |-> "", why |-> ""])
           /\ Keep /\ counter' = [k \in CKinds |-> 0]

Next == \/ \E k \in CKinds : Auto(k)
        \/ \E k \in CKinds, n \in Names : Named(k, n)
        \/ \E k \in CKinds, w \in Whys, n \in Names \cup {""} : Reject(k, n, w)
        \/ Rebuild
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InStep == cons = keys /\ keys = pars
Unique == Cardinality(NamesIn(cons)) = Len(cons)
Last == h[Len(h)]
\* explicit names that were accepted are kept, in order, and nothing is lost
Kept == \A i \in DOMAIN h :
    (h[i].op = "named" /\ h[i].why = "") => h[i].name \in NamesIn(cons)
Grows == [][Len(cons') >= Len(cons) /\ SubSeq(cons', 1, Len(cons)) = cons]_vars
Emit == Len(h) = Depth => PrintT("@" \o ToJson(h))
=============================================================================
