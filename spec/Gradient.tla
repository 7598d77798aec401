------------------------------- MODULE Gradient -------------------------------
(***************************************************************************)
(* C22: the exact derivatives of every measurement and documented residual.         *)
(*                                                                         *)
(* A case is [pts, c]: integer points and one call c as in Solve.  Each entry of the    *)
(* result is a form: integer polynomials, of degree at most two in one coordinate,       *)
(* in one of a few expressions (a length, something over a length, ...).  Derivatives     *)
(* of the polynomials are central differences, which are exact, and those of the forms    *)
(* follow from the rules of differentiation.                                   *)
(***************************************************************************)
EXTENDS Solve

Call == Case.c
Poly(ns, d) == [i \in DOMAIN ns |-> [t |-> "poly", f |-> <<ns[i]>>, q |-> <<1, d>>]]
LenForm(l) == <<[t |-> "len", f |-> <<Len2(l)>>, q |-> <<1, 1>>]>>
Over(num, l) == <<[t |-> "over", f |-> <<num, Len2(l)>>, q |-> <<1, 1>>]>>
PolyOf(i) == Poly(i, 1)

Forms(c, x) ==
    CASE c.name \in {"Coordinate", "Fix"} -> PolyOf(x[1])
      [] c.name = "XDistance" -> PolyOf(<<PSub(x[2], x[1])[1]>>)
      [] c.name = "YDistance" -> PolyOf(<<PSub(x[2], x[1])[2]>>)
      [] c.name = "DirectedDistance" -> PolyOf(<<Dot(PSub(x[2], x[1]), c.params[1])>>)
      [] c.name = "LineVector" -> PolyOf(Vec(x[1]))
      [] c.name = "UnitLineVector" -> Over(Vec(x[1])[1], x[1]) \o Over(Vec(x[1])[2], x[1])
      [] c.name = "Length" -> LenForm(x[1])
      [] c.name = "DirectedLength" -> PolyOf(<<Dot(Vec(x[1]), c.params[1])>>)
      [] c.name \in {"XLength", "Vertical"} -> PolyOf(<<Vec(x[1])[1]>>)
      [] c.name \in {"YLength", "Horizontal"} -> PolyOf(<<Vec(x[1])[2]>>)
      [] c.name = "Midpoint" -> Poly(Mid2(x[1]), 2)
      [] c.name = "MidpointDirectedDistance" -> Poly(<<Dot(PSub(Mid2(x[2]), Mid2(x[1])), c.params[1])>>, 2)
      [] c.name = "MidpointXDistance" -> Poly(<<PSub(Mid2(x[2]), Mid2(x[1]))[1]>>, 2)
      [] c.name = "MidpointYDistance" -> Poly(<<PSub(Mid2(x[2]), Mid2(x[1]))[2]>>, 2)
      [] c.name = "Orthogonal" -> PolyOf(<<Dot(Vec(x[1]), Vec(x[2]))>>)
      [] c.name = "Parallel" -> PolyOf(<<Cross(Vec(x[1]), Vec(x[2]))>>)
      [] c.name = "Angle" ->
            <<[t |-> "angle", f |-> <<Dot(Vec(x[1]), Vec(x[2])), Cross(Vec(x[1]), Vec(x[2]))>>, q |-> <<1, 1>>]>>
      [] c.name = "RelativeLength" ->
            <<[t |-> "lens", f |-> <<Len2(x[1]), Len2(x[2])>>, q |-> c.params[1]]>>
      [] c.name = "PointOnLineDistance" -> Over(OnLineNum(x[1], x[2], c.params[1]), x[2])
      [] c.name = "PointToLineDistance" ->
            LET k == Cross(Vec(x[2]), PSub(x[1], x[2][1])) IN Over(IF c.params[1] THEN -k ELSE k, x[2])
      [] c.name = "RelativePointOnLineDistance" ->
            <<[t |-> "rel", f |-> <<OnLineNum(x[1], x[2], c.params[1]), Len2(x[2])>>, q |-> <<1, 1>>]>>
      [] c.name = "Width" \/ (c.name = "RectangleDim" /\ c.side = "width") -> PolyOf(<<Vec(Bottom(x[1]))[1]>>)
      [] c.name = "Height" \/ (c.name = "RectangleDim" /\ c.side = "height") -> PolyOf(<<Vec(Right(x[1]))[2]>>)
      [] c.name = "AspectRatio" ->
            <<[t |-> "ratio", f |-> <<Len2(Bottom(x[1])), Len2(Right(x[1]))>>, q |-> <<1, 1>>]>>
      [] c.name \in {"OuterMargin", "InnerMargin"} ->
            LET other == IF c.name = "OuterMargin" THEN Opposite(c.side) ELSE c.side
                i == IF c.side \in {"left", "right"} THEN 1 ELSE 2
                w == Mid2(SideNamed(x[2], other))[i] - Mid2(SideNamed(x[1], c.side))[i]
            IN Poly(<<IF c.side \in {"left", "bottom"} THEN -w ELSE w>>, 2)
      [] c.name = "Coincident" -> PolyOf(PSub(x[2], x[1]))
      [] c.name = "CoincidentLines" ->
            IF c.params[1] THEN PolyOf(PSub(x[1][2], x[2][1]) \o PSub(x[1][1], x[2][2]))
            ELSE PolyOf(PSub(x[1][1], x[2][1]) \o PSub(x[1][2], x[2][2]))
\* the forms that are measurements
Of(f) ==
    CASE f.t = "poly" -> Rat(f.f[1] * f.q[1], f.q[2])
      [] f.t = "len" -> Surd(1, 1, f.f[1])
      [] f.t = "over" -> Surd(f.f[1], f.f[2], f.f[2])
      [] f.t = "rel" -> Rat(f.f[1], f.f[2])
      [] f.t = "angle" -> Ang(f.f[1], f.f[2])
      [] f.t = "ratio" -> RatioOf(f.f[1], f.f[2])
      [] f.t = "lens" -> Minus(Surd(1, 1, f.f[1]), Scale(f.q, Surd(1, 1, f.f[2])))
\* its derivative, where those of the polynomials are d
Slope(f, d) ==
    CASE f.t = "poly" -> Rat(d[1] * f.q[1], f.q[2])
      [] f.t = "len" -> Surd(d[1], 2 * f.f[1], f.f[1])
      [] f.t = "over" -> Surd(2 * f.f[2] * d[1] - f.f[1] * d[2], 2 * f.f[2] * f.f[2], f.f[2])
      [] f.t = "rel" -> Rat(d[1] * f.f[2] - f.f[1] * d[2], f.f[2] * f.f[2])
      [] f.t = "angle" -> Rat(f.f[1] * d[2] - f.f[2] * d[1], f.f[1] * f.f[1] + f.f[2] * f.f[2])
      [] f.t = "ratio" -> Scale(Norm(f.f[2] * d[1] - f.f[1] * d[2], 2 * f.f[1] * f.f[2]),
                                RatioOf(f.f[1], f.f[2]))
      [] f.t = "lens" -> Minus(Surd(d[1], 2 * f.f[1], f.f[1]), Scale(f.q, Surd(d[2], 2 * f.f[2], f.f[2])))

Here == Forms(Call, Args(Call, Case.pts))
Moved(i, k, e) == Forms(Call, Args(Call, Shift(Case.pts, i, k, e)))
Gradient ==
    LET here == TLCEval(Here)
        D == TLCEval([i \in DOMAIN Case.pts, k \in {1, 2} |->
                LET u == Moved(i, k, 1) v == Moved(i, k, -1) IN
                [r \in DOMAIN here |-> Slope(here[r],
                    [m \in DOMAIN here[r].f |-> (u[r].f[m] - v[r].f[m]) \div 2])]])
    IN [r \in DOMAIN here |-> [col \in 1..(2 * Len(Case.pts)) |->
            D[(col + 1) \div 2, IF col % 2 = 1 THEN 1 ELSE 2][r]]]

Defined ==
    LET x == Args(Call, Case.pts) IN
    /\ \A i \in DOMAIN x : CASE Call.sh[i] = "L" -> LineOk(x[i]) [] Call.sh[i] = "Q" -> QuadOk(x[i]) [] OTHER -> TRUE
    /\ Call.name = "Angle" => AngleOk(x[1], x[2])

\* the forms are what Geometry says of the measurements
FormsAgree == (Defined /\ Call.name \in MeasureNames) =>
    [r \in DOMAIN Here |-> Of(Here[r])] = Measure(AsCall(Call, Case.pts))
\* moving everything by the same amount changes only what is about places
Sum(g, k) == SumAll([i \in DOMAIN Case.pts |-> g[Col(i, k)]])
Translation == (Defined /\ Call.name \notin {"Coordinate", "Midpoint", "Fix"}) =>
    LET g == Gradient IN \A r \in DOMAIN g, k \in {1, 2} : IsZero(Sum(g[r], k))
\* coordinates of points that are not in the call have no part in it
Uninvolved == Defined => LET g == Gradient IN
    \A r \in DOMAIN g, i \in (DOMAIN Case.pts) \ Ids(Call), k \in {1, 2} : IsZero(g[r][Col(i, k)])
GEmit == Defined => PrintT("@" \o ToJson([n |-> n, value |-> [r \in DOMAIN Here |-> Of(Here[r])],
                                          grad |-> Gradient]))
=============================================================================
