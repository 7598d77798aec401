------------------------------ MODULE GeomCases ------------------------------
(***************************************************************************)
(* C10-C13: calls of measurements and constraints, enumerated over a small    *)
(* universe of geometry or recorded by the driver (DATA), each with the value  *)
(* it must return and, for constraints, whether the relation holds.           *)
(*                                                                         *)
(* One state per call.  A base call of a targeted constraint is expanded to    *)
(* calls with a satisfied target and with several violated ones.              *)
(***************************************************************************)
EXTENDS Geometry, Json, IOUtils

CONSTANTS Families,   \* which families of calls to enumerate
          Points,     \* universe for points
          LinePoints, \* universe for line end points
          FromData

DefaultPoints == {-1, 0, 2} \X {-2, 0, 1}
DefaultLinePoints == {<<0, 0>>, <<2, 0>>, <<0, -1>>, <<-1, 2>>, <<3, 4>>}
WidePoints == {-3, -1, 0, 1, 4} \X {-2, 0, 1, 3}
WideLinePoints == {<<0, 0>>, <<2, 0>>, <<0, -1>>, <<-1, 2>>, <<3, 4>>, <<-4, 3>>, <<2, 2>>, <<-1, -1>>}

VARIABLE c
Call(w, nm, sd, sh, as, ps) ==
    [what |-> w, name |-> nm, side |-> sd, sh |-> sh, args |-> as, params |-> ps]

Lines == {l \in LinePoints \X LinePoints : LineOk(l)}
Dirs == {<<1, 0>>, <<-2, 1>>, <<0, -3>>}

\* quadrilaterals: boxes (also touching, shifted, of negative size), skewed,
\* bow-tie and general ones
BoxAt(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>>
Quads == {BoxAt(0, 0, 2, 1), BoxAt(2, 0, 1, 1), BoxAt(3, 0, 2, 1), BoxAt(0, 1, 2, 3), BoxAt(-3, 0, 3, 1),
          BoxAt(0, -2, 2, 2), BoxAt(4, 4, -2, 1), BoxAt(1, 5, 2, -3),
          <<<<0, 0>>, <<3, 1>>, <<4, 5>>, <<-1, 2>>>>,
          <<<<0, 0>>, <<2, 0>>, <<3, 1>>, <<1, 1>>>>,
          <<<<0, 0>>, <<0, 2>>, <<-2, 2>>, <<-2, 0>>>>,
          <<<<0, 0>>, <<2, 0>>, <<2, 1>>, <<0, 2>>>>,
          <<<<0, 0>>, <<2, 0>>, <<1, 1>>, <<0, 1>>>>,
          <<<<0, 0>>, <<2, 1>>, <<2, 2>>, <<0, 2>>>>,
          <<<<1, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>>>,
          <<<<0, 0>>, <<3, 0>>, <<1, 2>>, <<2, -1>>>>}

PPNames == {"XDistance", "YDistance"}
LNames == {"Length", "XLength", "YLength"}
LLNames == {"MidpointXDistance", "MidpointYDistance", "Angle"}
PLNames == {"PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance"}
Both == {"measure", "constraint"}
None == {<<>>}
PBool == {<<TRUE>>, <<FALSE>>}
PDir == {<<d>> : d \in Dirs}
X1(S) == {<<s>> : s \in S}
X2(S, T) == {<<s, t>> : s \in S, t \in T}
C(w, nm, sd, sh, as, ps) == {Call(x, n, s, sh, a, p) : x \in w, n \in nm, s \in sd, a \in as, p \in ps}
NoSide == {""}
M == {"measure"}
K == {"constraint"}

Enum(f) ==
    CASE f = "P" -> C(M, {"Coordinate"}, NoSide, <<"P">>, X1(Points), None)
               \cup C(K, {"Fix"}, NoSide, <<"P">>, X1(Points), None)
      [] f = "PP" -> C(Both, PPNames, NoSide, <<"P", "P">>, X2(Points, Points), None)
               \cup C(Both, {"DirectedDistance"}, NoSide, <<"P", "P">>, X2(Points, Points), PDir)
               \cup C(K, {"Coincident"}, NoSide, <<"P", "P">>, X2(Points, Points), None)
      [] f = "L" -> C(Both, LNames, NoSide, <<"L">>, X1(Lines), None)
               \cup C(Both, {"DirectedLength"}, NoSide, <<"L">>, X1(Lines), PDir)
               \cup C(M, {"LineVector", "UnitLineVector", "Midpoint"}, NoSide, <<"L">>, X1(Lines), None)
               \cup C(K, {"Vertical", "Horizontal"}, NoSide, <<"L">>, X1(Lines), None)
      [] f = "LL" -> C(Both, LLNames, NoSide, <<"L", "L">>, X2(Lines, Lines), None)
      [] f = "LLm" -> C(M, {"MidpointDirectedDistance"}, NoSide, <<"L", "L">>, X2(Lines, Lines), PDir)
      [] f = "LLc" -> C(K, {"RelativeLength", "Orthogonal", "Parallel", "Collinear"}, NoSide, <<"L", "L">>, X2(Lines, Lines), None)
               \cup C(K, {"CoincidentLines"}, NoSide, <<"L", "L">>, X2(Lines, Lines), PBool)
      [] f = "PL" -> C(Both, PLNames, NoSide, <<"P", "L">>, X2(Points, Lines), PBool)
      [] f = "Q" -> C(Both, {"Width", "Height", "AspectRatio"}, NoSide, <<"Q">>, X1(Quads), None)
               \cup C(M, {"RectangleDim"}, {"width", "height"}, <<"Q">>, X1(Quads), None)
               \cup C(K, {"Box"}, NoSide, <<"Q">>, X1(Quads), None)
      [] f = "QQ" -> C(Both, {"OuterMargin", "InnerMargin"}, Sides, <<"Q", "Q">>, X2(Quads, Quads), None)
               \cup C(K, {"AlignRow", "AlignColumn"}, NoSide, <<"Q", "Q">>, X2(Quads, Quads), None)
               \cup C(K, {"Align"}, {"row", "column"}, <<"Q", "Q">>, X2(Quads, Quads), None)
               \cup C(K, {"CoincidentOutwardFaces"}, Sides, <<"Q", "Q">>, X2(Quads, Quads), None)

Defined(x) == /\ \A i \in DOMAIN x.args :
                    CASE x.sh[i] = "P" -> TRUE [] x.sh[i] = "L" -> LineOk(x.args[i])
                      [] x.sh[i] = "Q" -> QuadOk(x.args[i])
              /\ x.name = "Angle" => AngleOk(x.args[1], x.args[2])

\* Candidate targets for a targeted constraint: the satisfied one where it is
\* rational, and others
Targets(x) ==
    CASE x.name = "Fix" ->
           LET p == x.args[1] IN
           {<<<<p[1], 1>>, <<p[2], 1>>>>, <<<<p[1] + 1, 1>>, <<p[2], 1>>>>,
            <<<<p[1], 1>>, <<2 * p[2] - 1, 2>>>>, <<<<p[2], 1>>, <<p[1], 1>>>>}
      [] x.name = "Angle" ->
           LET l == Vec(x.args[1]) m == Vec(x.args[2])
               d == Dot(l, m) k == Cross(l, m) g == Gcd(d, k) a == d \div g b == k \div g
           IN {<<a, b>>, <<-b, a>>, <<a, -b>>, <<1, 0>>}
      [] x.name = "RelativeLength" ->
           LET q == SqSplit(Len2(x.args[1])) r == SqSplit(Len2(x.args[2]))
           IN {<<1, 1>>, <<2, 1>>, <<1, 3>>, <<-1, 1>>}
              \cup (IF q[2] = r[2] THEN {Norm(q[1], r[1])} ELSE {})
      [] OTHER ->
           LET v == Measure(x)[1]
               q == IF v = Zero THEN <<0, 1>> ELSE <<v[1].n, v[1].d>>
           IN {q, RAdd(q, <<1, 1>>), RAdd(q, <<-1, 2>>), RNeg(q)}

Variants(x) ==
    IF x.what = "constraint" /\ x.name \in Targeted \cup {"Fix", "RelativeLength"}
    THEN {[x EXCEPT !.params = Append(x.params, t)] : t \in Targets(x)}
    ELSE {x}

Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}
Base == IF FromData THEN Recorded ELSE UNION {Enum(f) : f \in Families}
Init == \E b \in Base : Defined(b) /\ c \in Variants(b)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

-----------------------------------------------------------------------------
IsMeasure == c.what = "measure"
IsConstraint == c.what = "constraint"
Swap(x) == [x EXCEPT !.args = <<x.args[2], x.args[1]>>, !.sh = <<x.sh[2], x.sh[1]>>]
Move(k, a, v) == IF k = "P" THEN PAdd(a, v) ELSE [i \in DOMAIN a |-> PAdd(a[i], v)]
Shifted(x, v) == [x EXCEPT !.args = [i \in DOMAIN x.args |-> Move(x.sh[i], x.args[i], v)]]
Quarter(p) == <<-p[2], p[1]>>
Turn(k, a) == IF k = "P" THEN Quarter(a) ELSE [i \in DOMAIN a |-> Quarter(a[i])]
Turned(x) == [x EXCEPT !.args = [i \in DOMAIN x.args |-> Turn(x.sh[i], x.args[i])]]

\* Consistency of the definitions (design-level properties)
HasQuantity(x) == x.name \in DocumentedQuantity \cup DocumentedDifference
                            \cup {"Collinear", "Box"}
\* a residual vanishes exactly on the documented relation
ZeroIffRelation == (IsConstraint /\ HasQuantity(c)) => (AllZero(Residual(c)) <=> Relation(c))
\* only positions, not relative measurements, depend on where the figure is
TranslationInvariant ==
    /\ (IsMeasure /\ c.name \notin {"Coordinate", "Midpoint"})
         => Measure(Shifted(c, <<3, -2>>)) = Measure(c)
    /\ (IsConstraint /\ c.name # "Fix") => Relation(Shifted(c, <<3, -2>>)) = Relation(c)
\* direction-free measurements do not change under a quarter turn
RotationInvariant ==
    /\ (IsMeasure /\ c.name \in {"Length", "Angle", "AspectRatio"} \cup PLNames)
         => Measure(Turned(c)) = Measure(c)
    /\ (IsConstraint /\ c.name \in {"Length", "Angle", "RelativeLength", "Orthogonal",
             "Parallel", "Collinear", "CoincidentLines", "Coincident", "AspectRatio"} \cup PLNames)
         => Relation(Turned(c)) = Relation(c)
Antisymmetric ==
    /\ (IsMeasure /\ c.name \in {"DirectedDistance", "XDistance", "YDistance",
            "MidpointDirectedDistance", "MidpointXDistance", "MidpointYDistance"})
         => Measure(Swap(c)) = VNeg(Measure(c))
    /\ (IsConstraint /\ c.name \in {"Coincident", "Orthogonal", "Parallel", "Collinear",
            "AlignRow", "AlignColumn", "CoincidentLines"}) => Relation(Swap(c)) = Relation(c)
\* reversing: perpendicular distances change sign, along-line distances sum to
\* the length of the line, fractions to one
Reversal ==
    LET r == [c EXCEPT !.params[1] = ~c.params[1]] IN
    /\ (IsMeasure /\ c.name = "PointToLineDistance") => Measure(r) = VNeg(Measure(c))
    /\ (IsMeasure /\ c.name = "PointOnLineDistance")
         => Plus(Measure(r)[1], Measure(c)[1]) = LengthOf(c.args[2])
    /\ (IsMeasure /\ c.name = "RelativePointOnLineDistance")
         => Plus(Measure(r)[1], Measure(c)[1]) = Int0(1)
\* the outer margin of a to b on one side is that of b to a on the other
MarginDuality ==
    (IsMeasure /\ c.name = "OuterMargin") =>
        Measure(c) = Measure([Swap(c) EXCEPT !.side = Opposite(c.side)])
AngleSense == (IsMeasure /\ c.name = "Angle") =>
    LET a == Measure(Swap(c))[1] b == Measure(c)[1] IN
    /\ Len(a) = Len(b)
    /\ Len(a) = 1 => a[1].c = b[1].c /\ a[1].s = -b[1].s
PythagorasOk == (IsMeasure /\ c.name = "UnitLineVector") =>
    LET u == Measure(c) IN Plus(Times(u[1], u[1]), Times(u[2], u[2])) = Int0(1)

-----------------------------------------------------------------------------
\* How values and targets grow with the size of the figure
Degree(x) == CASE x.name \in {"UnitLineVector", "Angle", "RelativePointOnLineDistance", "AspectRatio"} -> 0
               [] x.name \in {"Orthogonal", "Parallel"} -> 2
               [] OTHER -> 1
TargetDegree(x) == IF x.name \in {"RelativeLength"} THEN 0 ELSE Degree(x)
Quantity(x) == IF IsMeasure THEN "signed"
               ELSE IF x.name \in DocumentedQuantity THEN "signed"
               ELSE IF x.name \in DocumentedDifference THEN "unsigned" ELSE "zero"
Expected == IF IsMeasure THEN Measure(c)
            ELSE IF Quantity(c) \in {"signed", "unsigned"} THEN Residual(c) ELSE <<>>
Emit == PrintT("@" \o ToJson([case |-> c, value |-> Expected, q |-> Quantity(c),
               zero |-> IF IsMeasure THEN AllZero(Measure(c)) ELSE Relation(c),
               targeted |-> IsConstraint /\ c.name \in Targeted \cup {"Fix", "RelativeLength"},
               deg |-> Degree(c), tdeg |-> TargetDegree(c)]))
=============================================================================
