------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* C04: geometry trees whose points may be shared, the independent unknowns    *)
(* they have, and trees rebuilt from new values.                              *)
(*                                                                         *)
(* A geometry is [tree, val]: a PathTree tree in which a point node has id > 0   *)
(* (the same id is the same point) and other nodes have id 0, and the             *)
(* coordinates of every point id.                                             *)
(***************************************************************************)
EXTENDS PathTree, TLC

PointT(i) == [id |-> i, kind |-> "P", ch |-> <<>>]
LineT(a, b) == [id |-> 0, kind |-> "L",
                ch |-> <<[k |-> "Point0", t |-> PointT(a)], [k |-> "Point1", t |-> PointT(b)]>>]
PolyT(kind, ids) == LET n == Len(ids) IN
    [id |-> 0, kind |-> kind,
     ch |-> [i \in 1..n |-> [k |-> "Line" \o ToString(i - 1), t |-> LineT(ids[i], ids[(i % n) + 1])]]]
GroupT(names, ts) == [id |-> 0, kind |-> "N", ch |-> [i \in DOMAIN names |-> [k |-> names[i], t |-> ts[i]]]]

IsPoint(x) == x.kind \in {"P", "P'"}
Paths(t) == LET f == Flatten(t) IN {f[i].p : i \in DOMAIN f}
PointPaths(t) == LET f == Flatten(t) IN {f[i].p : i \in {j \in DOMAIN f : IsPoint(f[j])}}
PointIds(t) == LET f == Flatten(t) IN {f[i].id : i \in {j \in DOMAIN f : IsPoint(f[j])}}
IdAt(t, p) == Get(t, p).id

\* What a listing of the geometry shows, coordinates included
Listing(g) == LET f == Flatten(g.tree) IN
    [i \in DOMAIN f |-> [p |-> f[i].p, kind |-> f[i].kind, keys |-> f[i].keys,
                         v |-> IF IsPoint(f[i]) THEN g.val[f[i].id] ELSE <<>>]]

\* `entry` (path -> index into values) and `values` describe the unknowns of g
EntriesOk(g, entry, values) ==
    LET f == Flatten(g.tree)
        N == DOMAIN f
        pts == {i \in N : IsPoint(f[i])}
        e == TLCEval([i \in N |-> IF f[i].p \in DOMAIN entry THEN entry[f[i].p] ELSE 0])
    IN /\ Cardinality(DOMAIN entry) = Len(f)
       /\ \A i \in N : e[i] \in DOMAIN values
       /\ \A i, j \in pts : e[i] = e[j] <=> f[i].id = f[j].id
       /\ \A i \in pts : values[e[i]] = g.val[f[i].id]
       \* nothing but the points has coordinates
       /\ Cardinality({i \in DOMAIN values : values[i] # <<>>}) = Cardinality({f[i].id : i \in pts})
       /\ \A i \in N \ pts : values[e[i]] = <<>>

\* The geometry with new values for its unknowns
Rebuild(g, entry, new) ==
    LET f == Flatten(g.tree)
        pts == {i \in DOMAIN f : IsPoint(f[i])}
    IN [tree |-> g.tree,
        val |-> TLCEval([d \in {f[i].id : i \in pts} |-> new[entry[f[CHOOSE i \in pts : f[i].id = d].p]]])]

\* A canonical set of unknowns
Canon(g) ==
    LET ids == TLCEval(SetToSeq(PointIds(g.tree)))
        f == Flatten(g.tree)
        pos(i) == CHOOSE k \in DOMAIN ids : ids[k] = i
        P == {f[i].p : i \in DOMAIN f}
    IN [values |-> TLCEval(Append([k \in DOMAIN ids |-> g.val[ids[k]]], <<>>)),
        entry |-> TLCEval([p \in P |-> LET t == Get(g.tree, p) IN IF IsPoint(t) THEN pos(t.id) ELSE Len(ids) + 1])]
=============================================================================
