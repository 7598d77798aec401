---------------------------- MODULE TreeShapes -----------------------------
(***************************************************************************)
(* C02: every small tree (all shapes, names and kinds within the bounds),    *)
(* with what listing, rebuilding, mapping, accumulating and measuring it      *)
(* must give.  One state per tree.                                          *)
(***************************************************************************)
EXTENDS PathTree, TLC, Json, IOUtils

CONSTANTS Names,      \* candidate child names, not in alphabetical order
          Kinds,      \* node kinds
          MaxSize,    \* number of nodes
          FromData    \* TRUE: take the trees recorded in the file DATA instead

\* Rose trees of exactly n nodes whose ids are 0.. in depth-first order
RECURSIVE TreesFrom(_, _)
RECURSIVE Forests(_, _, _)
\* sequences of named children using n nodes in total, first id i, names from N
Forests(n, i, N) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION { { <<[k |-> nm, t |-> t]>> \o f :
                     t \in TreesFrom(m, i),
                     f \in Forests(n - m, i + m, N \ {nm}) }
                 : m \in 1..n, nm \in N }
TreesFrom(n, i) ==
    { [id |-> i, kind |-> kd, ch |-> f] : kd \in Kinds, f \in Forests(n - 1, i + 1, Names) }

AllTrees == UNION {TreesFrom(n, 0) : n \in 1..MaxSize}

Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}

VARIABLE t
Init == t \in (IF FromData THEN Recorded ELSE AllTrees)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t

Inc(x) == x + 100

RoundTrip == LET u == Unflatten(Flatten(t)) IN u.tree = t /\ u.rest = <<>>
SizeOk == Len(Flatten(t)) = Size(t)
MapTwice == MapTree(Inc, MapTree(Inc, t)) = MapTree(LAMBDA x : x + 200, t)
MapKeepsShape == LET F == Flatten(t) G == Flatten(MapTree(Inc, t))
                 IN /\ Len(F) = Len(G)
                    /\ \A i \in DOMAIN F : F[i].p = G[i].p /\ F[i].keys = G[i].keys
                                           /\ G[i].id = Inc(F[i].id)
\* the accumulated root holds the values of the whole tree, in listing order
AccumulateOrder == LET F == Flatten(t) IN Accumulate(t).id = [i \in DOMAIN F |-> F[i].id]
HeightIsDeepest == LET F == Flatten(t)
                       ls == {Len(F[i].p) : i \in DOMAIN F}
                   IN Height(t) \in ls /\ \A n \in ls : n <= Height(t)
ParentsFirst == LET F == Flatten(t)
                IN \A i \in DOMAIN F : F[i].p # <<>> =>
                     \E j \in 1..(i - 1) : F[j].p = Front(F[i].p)

Emit == PrintT("@" \o ToJson([tree |-> t, flat |-> Flatten(t), height |-> Height(t),
                              acc |-> Flatten(Accumulate(t)),
                              mapped |-> Flatten(MapTree(Inc, t))]))
EmitOk == Emit
=============================================================================
