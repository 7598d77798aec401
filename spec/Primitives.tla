----------------------------- MODULE Primitives -----------------------------
(***************************************************************************)
(* C03: requests to construct a primitive, which of them are accepted, and      *)
(* the parts the result has.                                                 *)
(*                                                                         *)
(* A request: kind, the shape of the value (<<n>> or <<n, m>>; <<>> when no      *)
(* value is given), supplied parts as a sequence of [k: kind, id] (ids name     *)
(* objects: the same id twice is the same object), dflt TRUE when no parts are    *)
(* supplied, and the axes flags.  Kind X is an object that is no primitive.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT FromData, MaxPoly
VARIABLE r

PrimKinds == {"N", "P", "L", "G", "Q", "A", "P'", "L'", "Q'"}
Kinds == PrimKinds \cup {"X"}
Parent(k) == CASE k = "Q'" -> "Q" [] k = "L'" -> "L" [] k = "P'" -> "P" [] k = "Q" -> "G" [] OTHER -> "N"
RECURSIVE SubKind(_, _)
SubKind(k, of) == k = of \/ (k \notin {"N", "X"} /\ SubKind(Parent(k), of))
All(ks, of) == Len(ks) = Len(of) /\ \A i \in DOMAIN ks : SubKind(ks[i], of[i])

\* user-defined kinds with every form of signature the package offers
UserKinds == {"U0", "U1", "U2", "U3"}
ValueSize(kind) == CASE kind = "P" -> 2 [] kind = "U0" -> 3 [] kind = "U1" -> 1 [] OTHER -> 0

XParts == <<"XAxis", "XAxisLabel">>
YParts == <<"YAxis", "YAxisLabel">>
Twin(s) == [i \in DOMAIN s |-> "Twin" \o s[i]]
If(b, s) == IF b THEN s ELSE <<>>
AxesNames(f) == <<"Frame">> \o If(f.x, XParts) \o If(f.y, YParts) \o If(f.tx, Twin(XParts)) \o If(f.ty, Twin(YParts))
IsLabel(n) == n \in {"XAxisLabel", "YAxisLabel", "TwinXAxisLabel", "TwinYAxisLabel"}
AxesKinds(f) == [i \in DOMAIN AxesNames(f) |-> IF IsLabel(AxesNames(f)[i]) THEN "P" ELSE "Q"]

PartKinds(q) == [i \in DOMAIN q.parts |-> q.parts[i].k]
PartsOk(q) ==
    LET ks == PartKinds(q) n == Len(ks) IN
    CASE q.kind = "P" -> n = 0
      [] q.kind = "L" -> All(ks, <<"P", "P">>)
      [] q.kind = "G" -> \A i \in DOMAIN ks : SubKind(ks[i], "P")
      [] q.kind = "Q" -> All(ks, <<"P", "P", "P", "P">>)
      [] q.kind = "A" -> All(ks, AxesKinds(q.flags))
      [] q.kind = "N" -> \A i \in DOMAIN ks : ks[i] # "X"
      [] q.kind = "U0" -> n = 0
      [] q.kind = "U1" -> All(ks, <<"P">>)
      [] q.kind = "U2" -> n % 2 = 0 /\ \A i \in DOMAIN ks : SubKind(ks[i], IF i % 2 = 1 THEN "P" ELSE "L")
      [] q.kind = "U3" -> All(ks, <<"P">>) \/ All(ks, <<"L", "Q">>)
ValueOk(q) == q.shape = <<>> \/ q.shape = <<ValueSize(q.kind)>>
Accepted(q) == ValueOk(q) /\ (q.dflt \/ PartsOk(q))

\* the parts, as [path, id]: id is that of the supplied object, 0 for a part made
\* by the primitive itself; parts of default primitives get fresh ids
LineName(i) == "Line" \o ToString(i - 1)
RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))
PolyParts(ids) == LET n == Len(ids) IN
    FlattenSeqs([i \in 1..n |-> <<[path |-> <<LineName(i)>>, kind |-> "L", id |-> 0],
                                 [path |-> <<LineName(i), "Point0">>, kind |-> "P", id |-> ids[i]],
                                 [path |-> <<LineName(i), "Point1">>, kind |-> "P", id |-> ids[(i % n) + 1]]>>])
Named(names, q) == [i \in DOMAIN names |-> [path |-> <<names[i]>>, kind |-> q.parts[i].k, id |-> q.parts[i].id]]
Ids(q) == [i \in DOMAIN q.parts |-> q.parts[i].id]
Fresh(n) == [i \in 1..n |-> 1000 + i]
DefaultQuad(name, base) ==
    <<[path |-> <<name>>, kind |-> "Q", id |-> 0]>>
    \o [j \in 1..12 |-> LET p == PolyParts([i \in 1..4 |-> base + i])[j] IN [p EXCEPT !.path = <<name>> \o @]]
Parts(q) ==
    IF q.dflt THEN
      CASE q.kind \in {"P", "N", "U0"} -> <<>>
        [] q.kind = "L" -> <<[path |-> <<"Point0">>, kind |-> "P", id |-> 1001],
                            [path |-> <<"Point1">>, kind |-> "P", id |-> 1002]>>
        [] q.kind = "G" -> PolyParts(Fresh(q.size))
        [] q.kind = "Q" -> PolyParts(Fresh(4))
        [] q.kind = "A" -> LET ns == AxesNames(q.flags) IN
              FlattenSeqs([i \in DOMAIN ns |-> IF IsLabel(ns[i])
                  THEN <<[path |-> <<ns[i]>>, kind |-> "P", id |-> 1000 + 10 * i]>>
                  ELSE DefaultQuad(ns[i], 1000 + 10 * i)])
    ELSE
      CASE q.kind \in {"P", "U0"} -> <<>>
        [] q.kind = "L" -> Named(<<"Point0", "Point1">>, q)
        [] q.kind \in {"G", "Q"} -> PolyParts(Ids(q))
        [] q.kind = "A" -> Named(AxesNames(q.flags), q)
        [] OTHER -> Named([i \in DOMAIN q.parts |-> "c" \o ToString(i)], q)

-----------------------------------------------------------------------------
NoFlags == [x |-> FALSE, y |-> FALSE, tx |-> FALSE, ty |-> FALSE]
\* a twin is requested together with its axis
AllFlags == {f \in [x : BOOLEAN, y : BOOLEAN, tx : BOOLEAN, ty : BOOLEAN] : (f.tx => f.x) /\ (f.ty => f.y)}
Req(k, shape, ks, dflt, f, size) ==
    [kind |-> k, shape |-> shape, parts |-> [i \in DOMAIN ks |-> [k |-> ks[i], id |-> i]], dflt |-> dflt,
     flags |-> f, size |-> size]
Rep(k, n) == [i \in 1..n |-> k]
Most(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
ValueShapes == {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<2, 1>>, <<2, 2>>, <<1, 2>>, <<3, 3>>}

\* one part changed: replaced, dropped, added or two swapped
Around(ks) ==
    {ks, Most(ks), IF ks = <<>> THEN ks ELSE Tail(ks)}
    \cup {Append(ks, k) : k \in {"P", "L", "Q", "X"}}
    \cup {[ks EXCEPT ![i] = k] : i \in DOMAIN ks, k \in Kinds}
    \cup {[ks EXCEPT ![i] = ks[i + 1], ![i + 1] = ks[i]] : i \in 1..(Len(ks) - 1)}

Values == {Req(k, s, ks, FALSE, NoFlags, 3) : k \in {"P"}, s \in ValueShapes, ks \in {<<>>, <<"P">>}}
    \cup {Req("L", s, <<"P", "P">>, FALSE, NoFlags, 3) : s \in ValueShapes}
    \cup {Req("G", s, <<"P", "P", "P">>, FALSE, NoFlags, 3) : s \in ValueShapes}
    \cup {Req("Q", s, <<"P", "P", "P", "P">>, FALSE, NoFlags, 4) : s \in ValueShapes}
    \cup {Req("A", s, <<"Q">>, FALSE, NoFlags, 4) : s \in ValueShapes}
    \cup {Req("N", s, <<"P", "Q">>, FALSE, NoFlags, 4) : s \in ValueShapes}
    \cup {Req("U0", s, <<>>, FALSE, NoFlags, 4) : s \in ValueShapes}
    \cup {Req("U1", s, <<"P">>, FALSE, NoFlags, 4) : s \in ValueShapes}
Defaults == {Req(k, s, <<>>, TRUE, NoFlags, 4) : k \in {"P", "L", "Q"}, s \in {<<>>, <<0>>, <<2>>}}
    \cup {Req("G", s, <<>>, TRUE, NoFlags, n) : s \in {<<>>, <<0>>}, n \in 1..MaxPoly}
    \cup {Req("A", s, <<>>, TRUE, f, 4) : s \in {<<>>, <<0>>}, f \in AllFlags}
Supplied ==
    {Req("P", <<2>>, ks, FALSE, NoFlags, 3) : ks \in Around(<<>>)}
    \cup {Req("L", s, ks, FALSE, NoFlags, 3) : s \in {<<>>, <<0>>}, ks \in Around(<<"P", "P">>)}
    \cup {Req("G", <<0>>, ks, FALSE, NoFlags, Len(ks)) : ks \in UNION {Around(Rep("P", n)) : n \in 1..MaxPoly}}
    \cup {Req("Q", s, ks, FALSE, NoFlags, 4) : s \in {<<>>, <<0>>}, ks \in UNION {Around(Rep("P", n)) : n \in {3, 4, 5}}}
    \cup UNION {{Req("A", <<0>>, ks, FALSE, f, 4) : ks \in Around(AxesKinds(f))} : f \in AllFlags}
    \cup {Req("N", <<0>>, ks, FALSE, NoFlags, 4) : ks \in Around(<<"P", "L", "Q">>)}
    \cup {Req("U1", <<1>>, ks, FALSE, NoFlags, 4) : ks \in Around(<<"P">>)}
    \cup {Req("U2", <<0>>, ks, FALSE, NoFlags, 4) : ks \in UNION {Around(x) :
            x \in {<<>>, <<"P", "L">>, <<"P", "L", "P", "L">>}}}
    \cup {Req("U3", <<0>>, ks, FALSE, NoFlags, 4) : ks \in Around(<<"P">>) \cup Around(<<"L", "Q">>) \cup {<<>>}}
\* the same object at several places
Shared == {[q EXCEPT !.parts[i].id = q.parts[j].id] :
             i \in 1..3, j \in 1..3, q \in {Req(k, <<0>>, Rep("P", 4), FALSE, NoFlags, 4) : k \in {"G", "Q"}}}
     \cup {[Req("L", <<0>>, <<"P", "P">>, FALSE, NoFlags, 2) EXCEPT !.parts[2].id = 1]}

Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}
Init == r \in (IF FromData THEN Recorded ELSE Values \cup Defaults \cup Supplied \cup Shared)
Next == FALSE /\ UNCHANGED r
Spec == Init /\ [][Next]_r

-----------------------------------------------------------------------------
IsPart(id) == \E i \in DOMAIN r.parts : r.parts[i].id = id
\* nothing that is supplied is dropped, nothing else is invented
NothingDropped == (Accepted(r) /\ ~r.dflt) =>
    {r.parts[i].id : i \in DOMAIN r.parts} = {Parts(r)[i].id : i \in DOMAIN Parts(r)} \ {0}
\* polygons close
Find(path) == LET S == {i \in DOMAIN Parts(r) : Parts(r)[i].path = path} IN Parts(r)[CHOOSE i \in S : TRUE]
Closed == (Accepted(r) /\ r.kind \in {"G", "Q"}) =>
    LET n == IF r.dflt THEN (IF r.kind = "Q" THEN 4 ELSE r.size) ELSE Len(r.parts) IN
    \A i \in 1..n : Find(<<LineName(i), "Point1">>).id = Find(<<LineName((i % n) + 1), "Point0">>).id
PathsDistinct == Accepted(r) => Cardinality({Parts(r)[i].path : i \in DOMAIN Parts(r)}) = Len(Parts(r))
Emit == PrintT("@" \o ToJson([req |-> r, ok |-> Accepted(r), size |-> ValueSize(r.kind),
                              parts |-> IF Accepted(r) THEN Parts(r) ELSE <<>>]))
=============================================================================
