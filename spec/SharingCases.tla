---------------------------- MODULE SharingCases ----------------------------
(***************************************************************************)
(* C04: every geometry made of a few primitives over a pool of points.        *)
(***************************************************************************)
EXTENDS Sharing, Json

CONSTANTS Pool, MaxPrims, QuadPool

VARIABLES root, n
vars == <<root, n>>

Val == [i \in 1..Pool |-> <<10 * i, 1 - 3 * i>>]
G == [tree |-> root, val |-> Val]
Name(k) == "p" \o ToString(k)
Ids == 1..Pool

Prims == {PointT(i) : i \in Ids}
    \cup {LineT(ij[1], ij[2]) : ij \in Ids \X Ids}
    \cup {PolyT("G", ijk) : ijk \in [1..3 -> Ids]}
    \cup {PolyT("Q", q) : q \in [1..4 -> 1..QuadPool]}
    \cup {GroupT(<<"a", "b">>, <<LineT(i, j), PointT(j)>>) : i \in Ids, j \in Ids}
    \cup {[id |-> 0, kind |-> "A", ch |-> <<[k |-> "Frame", t |-> PolyT("Q", q)]>>] : q \in [1..4 -> 1..QuadPool]}

Init == root = GroupT(<<>>, <<>>) /\ n = 0
Add == /\ n < MaxPrims
       /\ \E p \in Prims : root' = AddAt(root, <<Name(n)>>, p).tree
       /\ n' = n + 1
Next == Add
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what can be extracted describes the geometry; rebuilding keeps structure and
\* sharing, places every new value where it belongs, and can be repeated
Invariants ==
    LET c == Canon(G)
        new == TLCEval([i \in DOMAIN c.values |-> IF c.values[i] = <<>> THEN <<>> ELSE <<100 + i, -i>>])
        r == Rebuild(G, c.entry, new)
    IN /\ EntriesOk(G, c.entry, c.values)
       /\ EntriesOk(r, c.entry, new)
       /\ \A p \in PointPaths(root) : r.val[IdAt(r.tree, p)] = new[c.entry[p]]
       /\ \A i \in PointIds(root) : Rebuild(r, c.entry, c.values).val[i] = Val[i]
       /\ Cardinality(PointIds(root)) + 1 = Len(c.values)
Emit == n > 0 => PrintT("@" \o ToJson([tree |-> root]))
=============================================================================
