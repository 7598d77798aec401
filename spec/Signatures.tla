----------------------------- MODULE Signatures -----------------------------
(***************************************************************************)
(* C07: which calls of a construction are accepted.                          *)
(*                                                                         *)
(* A catalogue entry says how a construction is configured, which kinds of    *)
(* primitives it takes and how many parameters.  Every entry is called with    *)
(* the documented arguments and with arguments that differ in number or kind;   *)
(* derived and user-defined constructions (expressions of Algebra) come from     *)
(* the driver (DATA) and get their signature from Kinds and ParamKinds.          *)
(***************************************************************************)
EXTENDS Algebra, Json, IOUtils

CONSTANT FromData

VARIABLE call

\* kinds of primitives: N the generic node, G a polygon, a prime a user subclass
AllKinds == {"N", "P", "L", "G", "Q", "A", "P'", "L'", "Q'"}
Parent(k) == CASE k = "Q'" -> "Q" [] k = "L'" -> "L" [] k = "P'" -> "P" [] k = "Q" -> "G" [] OTHER -> "N"
RECURSIVE SubKind(_, _)
SubKind(k, of) == k = of \/ (k # "N" /\ SubKind(Parent(k), of))

-----------------------------------------------------------------------------
\* the library
Entry(mod, name, conf, kinds, ps) ==
    [mod |-> mod, name |-> name, conf |-> conf, kinds |-> kinds, ps |-> ps, e |-> <<>>]
Plain(mod, names, kinds, ps) == {Entry(mod, n, <<>>, kinds, ps) : n \in names}
Sided(mod, names, kinds, ps) == {Entry(mod, n, <<s>>, kinds, ps) : n \in names, s \in {"bottom", "top", "left", "right"}}
Times0(k, n) == [i \in 1..n |-> k]
Shapes == {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 4>>}
Arr(n) == "arr" \o ToString(n)

Measures ==
    Plain("con", {"Scalar"}, <<>>, <<"num">>)
    \cup Plain("con", {"Coordinate"}, <<"P">>, <<>>)
    \cup Plain("con", {"DirectedDistance"}, <<"P", "P">>, <<"dir">>)
    \cup Plain("con", {"XDistance", "YDistance"}, <<"P", "P">>, <<>>)
    \cup Plain("con", {"LineVector", "UnitLineVector", "Length", "XLength", "YLength", "Midpoint"}, <<"L">>, <<>>)
    \cup Plain("con", {"DirectedLength"}, <<"L">>, <<"dir">>)
    \cup Plain("con", {"MidpointXDistance", "MidpointYDistance", "Angle"}, <<"L", "L">>, <<>>)
    \cup Plain("con", {"MidpointDirectedDistance"}, <<"L", "L">>, <<"dir">>)
    \cup Plain("con", {"PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance"},
               <<"P", "L">>, <<"bool">>)
    \cup {Entry("con", "RectangleDim", <<d>>, <<"Q">>, <<>>) : d \in {"width", "height"}}
    \cup Plain("con", {"Width", "Height", "AspectRatio"}, <<"Q">>, <<>>)
    \cup Sided("con", {"OuterMargin", "InnerMargin"}, <<"Q", "Q">>, <<>>)
    \cup {Entry("con", "Margin", <<o, s>>, <<"Q", "Q">>, <<>>)
            : o \in {"outer", "inner"}, s \in {"bottom", "top", "left", "right"}}

Constraints ==
    Plain("cr", {"Fix"}, <<"P">>, <<"vec2">>)
    \cup Plain("cr", {"DirectedDistance"}, <<"P", "P">>, <<"dir", "num">>)
    \cup Plain("cr", {"XDistance", "YDistance"}, <<"P", "P">>, <<"num">>)
    \cup Plain("cr", {"Coincident"}, <<"P", "P">>, <<>>)
    \cup Plain("cr", {"Length", "XLength", "YLength"}, <<"L">>, <<"num">>)
    \cup Plain("cr", {"DirectedLength"}, <<"L">>, <<"dir", "num">>)
    \cup Plain("cr", {"Vertical", "Horizontal"}, <<"L">>, <<>>)
    \cup Plain("cr", {"RelativeLength", "MidpointXDistance", "MidpointYDistance", "Angle"}, <<"L", "L">>, <<"num">>)
    \cup Plain("cr", {"Orthogonal", "Parallel", "Collinear"}, <<"L", "L">>, <<>>)
    \cup Plain("cr", {"CoincidentLines"}, <<"L", "L">>, <<"bool">>)
    \cup Plain("cr", {"PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance"},
               <<"P", "L">>, <<"bool", "num">>)
    \cup Plain("cr", {"Box"}, <<"Q">>, <<>>)
    \cup Plain("cr", {"Width", "Height", "AspectRatio"}, <<"Q">>, <<"num">>)
    \cup Plain("cr", {"XAxisThickness", "YAxisThickness"}, <<"Q">>, <<"none">>)
    \cup {Entry("cr", "AxisThickness", <<d>>, <<"Q">>, <<"none">>) : d \in {"x", "y"}}
    \cup Sided("cr", {"OuterMargin", "InnerMargin"}, <<"Q", "Q">>, <<"num">>)
    \cup Plain("cr", {"AlignRow", "AlignColumn"}, <<"Q", "Q">>, <<>>)
    \cup {Entry("cr", "Align", <<d>>, <<"Q", "Q">>, <<>>) : d \in {"row", "column"}}
    \cup Sided("cr", {"CoincidentOutwardFaces"}, <<"Q", "Q">>, <<>>)
    \cup {Entry("cr", "OuterMarginArray", <<s, ToString(n)>>, Times0("Q", n), Times0("num", n - 1))
            : n \in {2, 3, 11}, s \in {"bottom", "top", "left", "right"}}
    \cup {Entry("cr", "RectilinearGrid", <<ToString(sh[1]), ToString(sh[2])>>, Times0("Q", sh[1] * sh[2]), <<>>)
            : sh \in Shapes}
    \cup {Entry("cr", "Grid", <<ToString(sh[1]), ToString(sh[2])>>, Times0("Q", sh[1] * sh[2]),
                <<Arr(sh[2] - 1), Arr(sh[1] - 1), Arr(sh[2] - 1), Arr(sh[1] - 1)>>) : sh \in Shapes}
    \cup {Entry("cr", "PositionAxis", <<a, s, t>>, <<"A">>, <<>>) : t \in {"", "twin"},
            a \in {"x"}, s \in {"bottom", "top"}}
    \cup {Entry("cr", "PositionAxis", <<a, s, t>>, <<"A">>, <<>>) : t \in {"", "twin"},
            a \in {"y"}, s \in {"left", "right"}}
    \cup {Entry("cr", "PositionXAxis", <<s, t>>, <<"A">>, <<>>) : t \in {"", "twin"}, s \in {"bottom", "top"}}
    \cup {Entry("cr", "PositionYAxis", <<s, t>>, <<"A">>, <<>>) : t \in {"", "twin"}, s \in {"left", "right"}}
    \cup {Entry("cr", "PositionAxisLabel", <<a, t>>, <<"A">>, <<"num">>) : t \in {"", "twin"}, a \in {"x", "y"}}
    \cup {Entry("cr", n, <<t>>, <<"A">>, <<"num">>) : t \in {"", "twin"},
            n \in {"PositionXAxisLabel", "PositionYAxisLabel"}}

Derived == LET D == JsonDeserialize(IOEnv.DATA)
           IN {[mod |-> "algebra", name |-> ToString(i), conf |-> <<>>, kinds |-> Kinds(D[i].e),
                ps |-> [j \in DOMAIN ParamKinds(D[i].e) |-> ParamKinds(D[i].e)[j].t], e |-> D[i].e] : i \in DOMAIN D}
Catalogue == IF FromData THEN Derived ELSE Measures \cup Constraints

-----------------------------------------------------------------------------
\* supplied arguments: the documented ones and changed ones
Most(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
KindVariants(ks) ==
    {ks, Most(ks), <<>>} \cup {Append(ks, k) : k \in {"P", "Q"}}
    \cup (IF ks # <<>> THEN {Append(ks, ks[Len(ks)]), ks \o ks, Tail(ks)} ELSE {})
    \cup {[ks EXCEPT ![i] = k] : i \in DOMAIN ks \cap {1, 2, Len(ks)}, k \in AllKinds}
    \cup (IF Len(ks) >= 2 THEN {[ks EXCEPT ![1] = ks[2], ![2] = ks[1]]} ELSE {})
ParamVariants(n) == {n, n + 1, n + 2, n + 3} \cup {m \in {n - 1, n - 2, 0} : m >= 0}

Init == \E c \in Catalogue : \E ks \in KindVariants(c.kinds) : \E n \in ParamVariants(Len(c.ps)) :
            /\ ks = c.kinds \/ n = Len(c.ps) \/ n = Len(c.ps) + 1
            /\ call = [c |-> c, kinds |-> ks, np |-> n]
Next == FALSE /\ UNCHANGED call
Spec == Init /\ [][Next]_call

Accepted(x) == /\ Len(x.kinds) = Len(x.c.kinds)
               /\ \A i \in DOMAIN x.kinds : SubKind(x.kinds[i], x.c.kinds[i])
               /\ x.np = Len(x.c.ps)

-----------------------------------------------------------------------------
\* sub-kinds are an order with the generic node on top
ASSUME SubKindOrder0 ==
    \A a, b, d \in AllKinds :
    /\ SubKind(a, a) /\ SubKind(a, "N")
    /\ (SubKind(a, b) /\ SubKind(b, a)) => a = b
    /\ (SubKind(a, b) /\ SubKind(b, d)) => SubKind(a, d)
\* replacing an accepted argument by a sub-kind keeps a call accepted
SubKindClosed == Accepted(call) =>
    \A i \in DOMAIN call.kinds : \A k \in AllKinds :
        SubKind(k, call.kinds[i]) => Accepted([call EXCEPT !.kinds[i] = k])
\* library measurements agree with the algebra's table
KnownLeaves == {"Coordinate", "XDistance", "YDistance", "DirectedDistance", "LineVector", "UnitLineVector",
    "Midpoint", "Length", "XLength", "YLength", "DirectedLength", "MidpointXDistance", "MidpointYDistance",
    "MidpointDirectedDistance", "Angle", "PointOnLineDistance", "PointToLineDistance",
    "RelativePointOnLineDistance", "AspectRatio", "Width", "Height", "RectangleDim", "OuterMargin", "InnerMargin"}
TableAgrees == (call.c.mod = "con" /\ call.c.name \in KnownLeaves) =>
    /\ LeafInfo(call.c.name).kinds = call.c.kinds /\ LeafInfo(call.c.name).params = call.c.ps
Emit == PrintT("@" \o ToJson([call |-> call, ok |-> Accepted(call)]))
=============================================================================
