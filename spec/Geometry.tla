------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* What every measurement (mpllayout.constructions) and every constraint     *)
(* (mpllayout.constraints) of the library means, on integer coordinates.      *)
(*                                                                         *)
(* A call is a record [name, side, args, params]:                           *)
(*   args    points <<x, y>>, lines <<P, Q>>, quadrilaterals <<P0,P1,P2,P3>>   *)
(*           (vertices in the order bottom-left, bottom-right, top-right,      *)
(*           top-left: side i runs from vertex i to vertex i+1), axes are       *)
(*           records of parts;                                              *)
(*   params  rationals <<n, d>>, directions <<a, b>>, booleans, ...           *)
(* `Value(call)` is the vector of exact reals the call must return;           *)
(* `Relation(call)` is the documented relation of a constraint.               *)
(***************************************************************************)
EXTENDS ExactReal, TLC

PSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
PAdd(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Vec(l) == PSub(l[2], l[1])
Norm2(u) == Dot(u, u)
Len2(l) == Norm2(Vec(l))

\* sides of a quadrilateral
Side(q, i) == <<q[i + 1], q[((i + 1) % 4) + 1]>>
Bottom(q) == Side(q, 0)
Right(q) == Side(q, 1)
Top(q) == Side(q, 2)
Left(q) == Side(q, 3)
SideNamed(q, s) == CASE s = "bottom" -> Bottom(q) [] s = "right" -> Right(q)
                     [] s = "top" -> Top(q) [] s = "left" -> Left(q)
Opposite(s) == CASE s = "bottom" -> "top" [] s = "top" -> "bottom"
                 [] s = "left" -> "right" [] s = "right" -> "left"
Sides == {"bottom", "right", "top", "left"}

IVec(u) == <<Int0(u[1]), Int0(u[2])>>
\* twice the midpoint
Mid2(l) == PAdd(l[1], l[2])
LengthOf(l) == Surd(1, 1, Len2(l))
\* u . l / |l|, with u rational times d: numerator / sqrt = num * sqrt(r) / r
OverLength(num, l) == Surd(num, Len2(l), Len2(l))

\* Length of l projected on a direction
Projected(v, dir) == Int0(Dot(v, dir))

\* along-line, perpendicular and relative distance of a point
OnLineNum(p, l, rev) == IF rev THEN -Dot(PSub(p, l[2]), Vec(l)) ELSE Dot(PSub(p, l[1]), Vec(l))
OnLine(p, l, rev) == OverLength(OnLineNum(p, l, rev), l)
\* unit line vector turned 90 degrees counter-clockwise (clockwise if reversed)
ToLine(p, l, rev) ==
    LET c == Cross(Vec(l), PSub(p, l[1])) IN OverLength(IF rev THEN -c ELSE c, l)
RelOnLine(p, l, rev) == Rat(OnLineNum(p, l, rev), Len2(l))

\* angle from the first to the second line, counter-clockwise
AngleBetween(l, m) == Ang(Dot(Vec(l), Vec(m)), Cross(Vec(l), Vec(m)))

\* signed margin of quadrilateral a to b on side s of a
MarginOf(a, b, s, outer) ==
    LET face(x, t) == Mid2(SideNamed(x, t))
        other == IF outer THEN Opposite(s) ELSE s
        i == IF s \in {"left", "right"} THEN 1 ELSE 2
        far == face(b, other)[i]
        near == face(a, s)[i]
    IN IF s \in {"left", "bottom"} THEN Rat(near - far, 2) ELSE Rat(far - near, 2)

\* |bottom| / |right|
Aspect(q) == LET a == Len2(Bottom(q)) b == Len2(Right(q))
                 sa == SqSplit(a) sb == SqSplit(b)
                 g == Gcd(sa[2], sb[2])
             IN \* sqrt(a)/sqrt(b) = sa1/sb1 * sqrt(sa2*sb2)/sb2
                Surd(sa[1] * g, sb[1] * sb[2], (sa[2] \div g) * (sb[2] \div g))

\* Lines as point sets
Parallel2(l, m) == Cross(Vec(l), Vec(m)) = 0
SameLine(l, m) == Parallel2(l, m) /\ Cross(Vec(l), PSub(m[1], l[1])) = 0
\* outward faces coincide: the face of b runs the other way along the face of a
FacesMeet(l, m) == l[1] = m[2] /\ l[2] = m[1]

-----------------------------------------------------------------------------
\* Measurements
A1(c) == c.args[1]
A2(c) == c.args[2]
P1(c) == c.params[1]

Measure(c) ==
    CASE c.name = "Coordinate" -> IVec(A1(c))
      [] c.name = "DirectedDistance" -> <<Projected(PSub(A2(c), A1(c)), P1(c))>>
      [] c.name = "XDistance" -> <<Projected(PSub(A2(c), A1(c)), <<1, 0>>)>>
      [] c.name = "YDistance" -> <<Projected(PSub(A2(c), A1(c)), <<0, 1>>)>>
      [] c.name = "LineVector" -> IVec(Vec(A1(c)))
      [] c.name = "UnitLineVector" -> <<OverLength(Vec(A1(c))[1], A1(c)), OverLength(Vec(A1(c))[2], A1(c))>>
      [] c.name = "Length" -> <<LengthOf(A1(c))>>
      [] c.name = "DirectedLength" -> <<Projected(Vec(A1(c)), P1(c))>>
      [] c.name = "XLength" -> <<Projected(Vec(A1(c)), <<1, 0>>)>>
      [] c.name = "YLength" -> <<Projected(Vec(A1(c)), <<0, 1>>)>>
      [] c.name = "Midpoint" -> <<Rat(Mid2(A1(c))[1], 2), Rat(Mid2(A1(c))[2], 2)>>
      [] c.name = "MidpointDirectedDistance" ->
            <<Rat(Dot(PSub(Mid2(A2(c)), Mid2(A1(c))), P1(c)), 2)>>
      [] c.name = "MidpointXDistance" -> <<Rat(PSub(Mid2(A2(c)), Mid2(A1(c)))[1], 2)>>
      [] c.name = "MidpointYDistance" -> <<Rat(PSub(Mid2(A2(c)), Mid2(A1(c)))[2], 2)>>
      [] c.name = "Angle" -> <<AngleBetween(A1(c), A2(c))>>
      [] c.name = "PointOnLineDistance" -> <<OnLine(A1(c), A2(c), P1(c))>>
      [] c.name = "PointToLineDistance" -> <<ToLine(A1(c), A2(c), P1(c))>>
      [] c.name = "RelativePointOnLineDistance" -> <<RelOnLine(A1(c), A2(c), P1(c))>>
      [] c.name = "Width" \/ (c.name = "RectangleDim" /\ c.side = "width") ->
            <<Int0(Vec(Bottom(A1(c)))[1])>>
      [] c.name = "Height" \/ (c.name = "RectangleDim" /\ c.side = "height") ->
            <<Int0(Vec(Right(A1(c)))[2])>>
      [] c.name = "AspectRatio" -> <<Aspect(A1(c))>>
      [] c.name = "OuterMargin" -> <<MarginOf(A1(c), A2(c), c.side, TRUE)>>
      [] c.name = "InnerMargin" -> <<MarginOf(A1(c), A2(c), c.side, FALSE)>>

MeasureNames == {"Coordinate", "DirectedDistance", "XDistance", "YDistance", "LineVector",
    "UnitLineVector", "Length", "DirectedLength", "XLength", "YLength", "Midpoint",
    "MidpointDirectedDistance", "MidpointXDistance", "MidpointYDistance", "Angle",
    "PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance",
    "Width", "Height", "RectangleDim", "AspectRatio", "OuterMargin", "InnerMargin"}

-----------------------------------------------------------------------------
\* Constraints with a target value: measurement minus target (the last parameter)
Targeted == {"DirectedDistance", "XDistance", "YDistance", "Length", "DirectedLength",
    "XLength", "YLength", "MidpointXDistance", "MidpointYDistance", "Angle",
    "PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance",
    "Width", "Height", "AspectRatio", "OuterMargin", "InnerMargin"}

Target(c) == c.params[Len(c.params)]
TargetValue(c) == IF c.name = "Angle" THEN Ang(Target(c)[1], Target(c)[2]) ELSE OfRat(Target(c))

\* The documented quantity; for the relations whose quantity is not documented
\* as one formula, any vector that vanishes exactly on the relation
Residual(c) ==
    CASE c.name = "Fix" ->
            VMinus(IVec(A1(c)), <<OfRat(Target(c)[1]), OfRat(Target(c)[2])>>)
      [] c.name \in Targeted -> <<Minus(Measure(c)[1], TargetValue(c))>>
      [] c.name = "Coincident" -> IVec(PSub(A2(c), A1(c)))
      [] c.name = "Vertical" -> <<Int0(Vec(A1(c))[1])>>
      [] c.name = "Horizontal" -> <<Int0(Vec(A1(c))[2])>>
      [] c.name = "RelativeLength" ->
            <<Minus(LengthOf(A1(c)), Scale(Target(c), LengthOf(A2(c))))>>
      [] c.name = "Orthogonal" -> <<Int0(Dot(Vec(A1(c)), Vec(A2(c))))>>
      [] c.name = "Parallel" -> <<Int0(Cross(Vec(A1(c)), Vec(A2(c))))>>
      [] c.name = "Collinear" -> <<Int0(Cross(Vec(A1(c)), Vec(A2(c)))),
                                   Int0(Cross(Vec(A1(c)), PSub(A1(c)[1], A2(c)[1])))>>
      [] c.name = "CoincidentLines" ->
            IF P1(c) THEN IVec(PSub(A1(c)[2], A2(c)[1])) \o IVec(PSub(A1(c)[1], A2(c)[2]))
            ELSE IVec(PSub(A1(c)[1], A2(c)[1])) \o IVec(PSub(A1(c)[2], A2(c)[2]))
      [] c.name = "Box" -> <<Int0(Vec(Bottom(A1(c)))[2]), Int0(Vec(Top(A1(c)))[2]),
                             Int0(Vec(Left(A1(c)))[1]), Int0(Vec(Right(A1(c)))[1])>>

DocumentedQuantity == Targeted \cup {"Fix", "Vertical", "Horizontal", "RelativeLength",
    "Orthogonal", "Parallel"}
\* documented up to the order of the points subtracted
DocumentedDifference == {"Coincident", "CoincidentLines"}

\* two vectors (dx, dy) have the same direction
SameDirection(u, v) == Cross(u, v) = 0 /\ Dot(u, v) > 0
\* q >= 0 is a rational: v (a sum) = q
EqualsRat(v, q) == IsZero(Minus(v, OfRat(q)))

Relation(c) ==
    CASE c.name = "Fix" -> /\ REq(<<A1(c)[1], 1>>, Target(c)[1])
                           /\ REq(<<A1(c)[2], 1>>, Target(c)[2])
      [] c.name = "Angle" ->
            SameDirection(<<Dot(Vec(A1(c)), Vec(A2(c))), Cross(Vec(A1(c)), Vec(A2(c)))>>,
                          Target(c))
      [] c.name = "Length" -> REq(<<Len2(A1(c)), 1>>, RMul(Target(c), Target(c)))
                              /\ Target(c)[1] >= 0
      [] c.name \in Targeted \ {"Angle", "Length"} -> EqualsRat(Measure(c)[1], Target(c))
      [] c.name = "Coincident" -> A1(c) = A2(c)
      [] c.name = "Vertical" -> A1(c)[1][1] = A1(c)[2][1]
      [] c.name = "Horizontal" -> A1(c)[1][2] = A1(c)[2][2]
      [] c.name = "RelativeLength" ->
            /\ Target(c)[1] >= 0
            /\ REq(<<Len2(A1(c)), 1>>, RMul(RMul(Target(c), Target(c)), <<Len2(A2(c)), 1>>))
      [] c.name = "Orthogonal" -> Dot(Vec(A1(c)), Vec(A2(c))) = 0
      [] c.name = "Parallel" -> Parallel2(A1(c), A2(c))
      [] c.name = "Collinear" -> SameLine(A1(c), A2(c))
      [] c.name = "CoincidentLines" -> IF P1(c) THEN FacesMeet(A1(c), A2(c)) ELSE A1(c) = A2(c)
      [] c.name = "Box" -> LET q == A1(c) IN
            /\ q[1][2] = q[2][2] /\ q[3][2] = q[4][2]
            /\ q[2][1] = q[3][1] /\ q[4][1] = q[1][1]
      [] c.name = "AlignRow" \/ (c.name = "Align" /\ c.side = "row") ->
            SameLine(Bottom(A1(c)), Bottom(A2(c))) /\ SameLine(Top(A1(c)), Top(A2(c)))
      [] c.name = "AlignColumn" \/ (c.name = "Align" /\ c.side = "column") ->
            SameLine(Left(A1(c)), Left(A2(c))) /\ SameLine(Right(A1(c)), Right(A2(c)))
      [] c.name = "CoincidentOutwardFaces" ->
            FacesMeet(SideNamed(A1(c), c.side), SideNamed(A2(c), Opposite(c.side)))
      [] c.name = "OuterMarginArray" ->
            \A i \in 1..(Len(c.args) - 1) :
               EqualsRat(MarginOf(c.args[i], c.args[i + 1], c.side, TRUE), c.params[i])

\* Lines and quadrilaterals for which every measurement is defined
LineOk(l) == l[1] # l[2]
QuadOk(q) == \A i \in 0..3 : LineOk(Side(q, i))
\* the angle is on its branch cut
AngleOk(l, m) == ~(Cross(Vec(l), Vec(m)) = 0 /\ Dot(Vec(l), Vec(m)) < 0)
=============================================================================
