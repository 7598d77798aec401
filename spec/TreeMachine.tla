---------------------------- MODULE TreeMachine ----------------------------
(***************************************************************************)
(* C01: histories of additions and replacements of a labelled tree.         *)
(*                                                                         *)
(* `tree` is the abstract state, `nxt` the next fresh node id.  `op` is the *)
(* operation just performed with its outcome; it is hidden by the VIEW.     *)
(***************************************************************************)
EXTENDS PathTree, TLC, Json

CONSTANTS Names, MaxDepth, MaxNodes, MaxOps

VARIABLES tree, nxt, nops, op

vars == <<tree, nxt, nops, op>>
View == <<tree, nxt, nops>>

Paths == UNION {[1..n -> Names] : n \in 1..MaxDepth}

\* What can be stored: a leaf, or a node that brings a child of its own
Shapes == {"leaf", "branch"}
Sub(shape, kd) ==
    IF shape = "leaf" THEN Leaf(nxt, kd)
    ELSE [id |-> nxt, kind |-> kd,
          ch |-> <<[k |-> CHOOSE x \in Names : TRUE, t |-> Leaf(nxt + 1, kd)]>>]
Fresh(shape) == IF shape = "leaf" THEN 1 ELSE 2

Init == /\ tree = Leaf(0, "N")
        /\ nxt = 1 /\ nops = 0
        /\ op = [name |-> "init"]

Step(name, p, shape, r) ==
    /\ tree' = r.tree
    /\ nxt' = IF r.ok THEN nxt + Fresh(shape) ELSE nxt
    /\ nops' = IF r.ok THEN nops + 1 ELSE nops
    /\ op' = [name |-> name, path |-> p, shape |-> shape, ok |-> r.ok]

Add(p, shape) == Step("add", p, shape, AddAt(tree, p, Sub(shape, "N")))
Replace(p, shape) == Step("set", p, shape, SetAt(tree, p, Sub(shape, "N")))

\* The very node that is stored at a path, given once more
Again(name, p, r) ==
    /\ Has(tree, p)
    /\ tree' = r.tree
    /\ UNCHANGED <<nxt, nops>>
    /\ op' = [name |-> name, path |-> p, shape |-> "same", ok |-> r.ok]

AddAgain(p) == Again("add", p, AddAt(tree, p, Get(tree, p)))
PutBack(p) == Again("set", p, SetAt(tree, p, Get(tree, p)))

Next == \/ /\ nops < MaxOps
           /\ \E p \in Paths, s \in Shapes : Add(p, s) \/ Replace(p, s)
        \/ \E p \in Paths : AddAgain(p) \/ PutBack(p)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Properties of the design

RECURSIVE WellFormed(_)
WellFormed(t) == DistinctNames(t) /\ \A i \in DOMAIN t.ch : WellFormed(t.ch[i].t)

UniqueNames == WellFormed(tree)
\* membership, lookup and listing agree
PathsAgree == LET L == Flatten(tree)
                  listed == {L[i].p : i \in DOMAIN L}
              IN \A p \in Paths : Has(tree, p) <=> p \in listed
LookupIsListed == LET L == Flatten(tree)
                  IN \A i \in DOMAIN L : Get(tree, L[i].p).id = L[i].id
\* no node is listed twice
EachOnce == LET L == Flatten(tree)
            IN Cardinality({L[i].id : i \in DOMAIN L}) = Len(L)
ParentsFirst == LET L == Flatten(tree)
                IN \A i, j \in DOMAIN L :
                     (i # j /\ IsPrefix(L[i].p, L[j].p)) => i < j

\* a rejected operation changes nothing; an accepted one stores the new node at
\* exactly its path and leaves every unrelated path alone
StepOk ==
    LET o == op' IN
    /\ (~o.ok \/ o.shape = "same") => tree' = tree
    /\ (o.ok /\ o.shape # "same") => /\ Get(tree', o.path).id = nxt
               /\ \A p \in Paths : ~IsPrefix(o.path, p) =>
                     /\ Has(tree', p) = Has(tree, p)
                     /\ Has(tree, p) => Get(tree', p).id = Get(tree, p).id
    /\ o.name = "add" => (o.ok <=> ~Has(tree, o.path) /\ Has(tree, Front(o.path)))
    /\ o.name = "set" => (o.ok <=> Has(tree, o.path))
\* siblings keep their order; a new child comes last, a replacement stays in place
OrderOk ==
    \A p \in Paths \cup {<<>>} :
      (Has(tree, p) /\ Has(tree', p) /\ Get(tree, p).id = Get(tree', p).id)
         => IsPrefix(Keys(Get(tree, p)), Keys(Get(tree', p)))
StepsOk == [][StepOk]_vars
OrdersOk == [][OrderOk]_vars

Bound == nxt <= MaxNodes

\* Emission of the labelled state graph for the replay in the implementation
Emit == PrintT("@" \o ToJson([s |-> Flatten(tree), m |-> nxt, n |-> nops, op |-> op',
                              t |-> Flatten(tree'), tm |-> nxt', tn |-> nops']))
=============================================================================
