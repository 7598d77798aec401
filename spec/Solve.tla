------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* C16: what solving a layout must return.                                    *)
(*                                                                         *)
(* A case is a design: integer points (the unknowns are their coordinates,     *)
(* shared by everything that is drawn through the point) and constraints that   *)
(* hold for them; the targets are taken from the design.  The specification      *)
(* derives, exactly,                                                         *)
(*   holds      whether the relational constraints hold for the design          *)
(*   targets    the parameters with which the other constraints hold            *)
(*   rows       the differential of the constraints at the design (each row up   *)
(*              to a factor), hence which coordinates they determine             *)
(*   involved   the coordinates that some constraint mentions                    *)
(* For linear constraints determined coordinates must be those of the design       *)
(* whatever the starting geometry is, and after a single Newton step; for the       *)
(* others when they are all determined and the start is near the design.            *)
(* Coordinates that are not involved keep their starting values.                     *)
(*                                                                         *)
(* A constraint is [name, side, sh, ids, params, shape]; ids are the points of       *)
(* each argument (for axes: of each part), params those before the target.           *)
(***************************************************************************)
EXTENDS Geometry, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES n
Case == Data[n]
Init == n \in 1..Len(Data)
Next == FALSE /\ UNCHANGED n
Spec == Init /\ [][Next]_n

-----------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

QuadNames == {"Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"}
Geo(sh, ids, pts) ==
    CASE sh = "P" -> pts[ids[1]]
      [] sh = "L" -> <<pts[ids[1]], pts[ids[2]]>>
      [] sh = "Q" -> [i \in 1..4 |-> pts[ids[i]]]
      [] sh = "A" -> [k \in DOMAIN ids |-> IF k \in QuadNames THEN [i \in 1..4 |-> pts[ids[k][i]]]
                                           ELSE pts[ids[k][1]]]
Args(c, pts) == [i \in DOMAIN c.sh |-> Geo(c.sh[i], c.ids[i], pts)]
Ids(c) == UNION {LET x == c.ids[i] IN
                 IF c.sh[i] = "A" THEN UNION {{x[k][j] : j \in DOMAIN x[k]} : k \in DOMAIN x}
                 ELSE {x[j] : j \in DOMAIN x} : i \in DOMAIN c.sh}

-----------------------------------------------------------------------------
\* a call of Geometry
AsCall(c, pts) == [what |-> "measure", name |-> c.name, side |-> c.side, args |-> Args(c, pts),
                   params |-> c.params]
RatioOf(a, b) ==   \* sqrt(a/b), a and b positive integers
    LET sa == SqSplit(a) sb == SqSplit(b) g == Gcd(sa[2], sb[2])
    IN Surd(sa[1] * g, sb[1] * sb[2], (sa[2] \div g) * (sb[2] \div g))
AxisName(c, twin) == (IF twin THEN "Twin" ELSE "") \o (IF c.axis = "x" THEN "XAxis" ELSE "YAxis")

\* grids: quads in row-major order
Rows(c) == c.shape[1]
Cols(c) == c.shape[2]
At(c, q, i, j) == q[(i - 1) * Cols(c) + j]

\* the parameters with which the constraint holds: lists of exact reals
Targets(c, pts) == LET a == Args(c, pts) IN
    CASE c.name = "Fix" -> <<IVec(a[1])>>
      [] c.name \in Targeted -> <<Measure(AsCall(c, pts))>>
      [] c.name = "RelativeLength" -> <<<<RatioOf(Len2(a[1]), Len2(a[2]))>>>>
      [] c.name = "OuterMarginArray" ->
            [i \in 1..(Len(a) - 1) |-> <<MarginOf(a[i], a[i + 1], c.side, TRUE)>>]
      [] c.name = "PositionAxisLabel" ->
            LET p == a[1][AxisName(c, c.twin) \o "Label"] f == a[1].Frame IN
            <<<<IF c.axis = "x" THEN Rat(p[1] - f[1][1], f[2][1] - f[1][1])
                ELSE Rat(p[2] - f[1][2], f[3][2] - f[1][2])>>>>
      [] c.name = "Grid" ->
            <<[j \in 1..(Cols(c) - 1) |-> RatioOf(Len2(Bottom(At(c, a, 1, j + 1))), Len2(Bottom(At(c, a, 1, 1))))],
              [i \in 1..(Rows(c) - 1) |-> RatioOf(Len2(Left(At(c, a, i + 1, 1))), Len2(Left(At(c, a, 1, 1))))],
              [j \in 1..(Cols(c) - 1) |-> MarginOf(At(c, a, 1, j), At(c, a, 1, j + 1), "right", TRUE)],
              [i \in 1..(Rows(c) - 1) |-> MarginOf(At(c, a, i, 1), At(c, a, i + 1, 1), "bottom", TRUE)]>>
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
\* Polynomials whose differentials at the design (arguments a) span those of the
\* residual; x are the arguments they are evaluated at.  Degree at most two in
\* any one coordinate.
Align1(l, m) == <<Cross(Vec(l), Vec(m)), Cross(Vec(l), PSub(m[1], l[1]))>>
AlignPoly(q, r, row) == IF row THEN Align1(Bottom(q), Bottom(r)) \o Align1(Top(q), Top(r))
                        ELSE Align1(Left(q), Left(r)) \o Align1(Right(q), Right(r))
\* differential of sqrt(a / b) at a0 / b0
RatioPoly(a, b, a0, b0) == <<b0 * a - a0 * b>>
\* differential of num / sqrt(len2)
OverLenPoly(k, l, k0, l0) == <<2 * l0 * k - k0 * l>>
FacesPoly(l, m) == PSub(l[1], m[2]) \o PSub(l[2], m[1])
MarginPoly(a, b, s, outer) ==
    LET other == IF outer THEN Opposite(s) ELSE s
        i == IF s \in {"left", "right"} THEN 1 ELSE 2
    IN <<Mid2(SideNamed(b, other))[i] - Mid2(SideNamed(a, s))[i]>>

Polys(c, a, x) ==
    CASE c.name \in {"Fix"} -> x[1]
      [] c.name = "XDistance" -> <<PSub(x[2], x[1])[1]>>
      [] c.name = "YDistance" -> <<PSub(x[2], x[1])[2]>>
      [] c.name = "DirectedDistance" -> <<Dot(PSub(x[2], x[1]), c.params[1])>>
      [] c.name = "Coincident" -> PSub(x[2], x[1])
      [] c.name = "Length" -> <<Len2(x[1])>>
      [] c.name = "DirectedLength" -> <<Dot(Vec(x[1]), c.params[1])>>
      [] c.name \in {"XLength", "Vertical"} -> <<Vec(x[1])[1]>>
      [] c.name \in {"YLength", "Horizontal"} -> <<Vec(x[1])[2]>>
      [] c.name = "RelativeLength" -> RatioPoly(Len2(x[1]), Len2(x[2]), Len2(a[1]), Len2(a[2]))
      [] c.name = "MidpointXDistance" -> <<PSub(Mid2(x[2]), Mid2(x[1]))[1]>>
      [] c.name = "MidpointYDistance" -> <<PSub(Mid2(x[2]), Mid2(x[1]))[2]>>
      [] c.name = "Orthogonal" -> <<Dot(Vec(x[1]), Vec(x[2]))>>
      [] c.name = "Parallel" -> <<Cross(Vec(x[1]), Vec(x[2]))>>
      [] c.name = "Angle" ->
            <<Dot(Vec(a[1]), Vec(a[2])) * Cross(Vec(x[1]), Vec(x[2]))
              - Cross(Vec(a[1]), Vec(a[2])) * Dot(Vec(x[1]), Vec(x[2]))>>
      [] c.name = "Collinear" -> Align1(x[1], x[2])
      [] c.name = "CoincidentLines" ->
            IF c.params[1] THEN FacesPoly(x[1], x[2])
            ELSE PSub(x[1][1], x[2][1]) \o PSub(x[1][2], x[2][2])
      [] c.name = "PointOnLineDistance" ->
            OverLenPoly(OnLineNum(x[1], x[2], c.params[1]), Len2(x[2]),
                        OnLineNum(a[1], a[2], c.params[1]), Len2(a[2]))
      [] c.name = "PointToLineDistance" ->
            OverLenPoly(Cross(Vec(x[2]), PSub(x[1], x[2][1])), Len2(x[2]),
                        Cross(Vec(a[2]), PSub(a[1], a[2][1])), Len2(a[2]))
      [] c.name = "RelativePointOnLineDistance" ->
            <<Len2(a[2]) * OnLineNum(x[1], x[2], c.params[1])
              - OnLineNum(a[1], a[2], c.params[1]) * Len2(x[2])>>
      [] c.name = "Box" -> <<Vec(Bottom(x[1]))[2], Vec(Top(x[1]))[2], Vec(Left(x[1]))[1], Vec(Right(x[1]))[1]>>
      [] c.name = "Width" -> <<Vec(Bottom(x[1]))[1]>>
      [] c.name = "Height" -> <<Vec(Right(x[1]))[2]>>
      [] c.name = "AspectRatio" -> RatioPoly(Len2(Bottom(x[1])), Len2(Right(x[1])),
                                             Len2(Bottom(a[1])), Len2(Right(a[1])))
      [] c.name = "OuterMargin" -> MarginPoly(x[1], x[2], c.side, TRUE)
      [] c.name = "InnerMargin" -> MarginPoly(x[1], x[2], c.side, FALSE)
      [] c.name = "OuterMarginArray" ->
            Flat([i \in 1..(Len(x) - 1) |-> MarginPoly(x[i], x[i + 1], c.side, TRUE)])
      [] c.name = "AlignRow" -> AlignPoly(x[1], x[2], TRUE)
      [] c.name = "AlignColumn" -> AlignPoly(x[1], x[2], FALSE)
      [] c.name = "CoincidentOutwardFaces" ->
            FacesPoly(SideNamed(x[1], c.side), SideNamed(x[2], Opposite(c.side)))
      [] c.name \in {"RectilinearGrid", "Grid"} ->
            Flat([i \in 1..Rows(c) |-> Flat([j \in 1..(Cols(c) - 1) |->
                    AlignPoly(At(c, x, i, j), At(c, x, i, j + 1), TRUE)])])
            \o Flat([j \in 1..Cols(c) |-> Flat([i \in 1..(Rows(c) - 1) |->
                    AlignPoly(At(c, x, i, j), At(c, x, i + 1, j), FALSE)])])
            \o (IF c.name = "RectilinearGrid" THEN <<>> ELSE
                Flat([j \in 1..(Cols(c) - 1) |->
                    RatioPoly(Len2(Bottom(At(c, x, 1, j + 1))), Len2(Bottom(At(c, x, 1, 1))),
                              Len2(Bottom(At(c, a, 1, j + 1))), Len2(Bottom(At(c, a, 1, 1))))])
                \o Flat([i \in 1..(Rows(c) - 1) |->
                    RatioPoly(Len2(Left(At(c, x, i + 1, 1))), Len2(Left(At(c, x, 1, 1))),
                              Len2(Left(At(c, a, i + 1, 1))), Len2(Left(At(c, a, 1, 1))))])
                \o Flat([j \in 1..(Cols(c) - 1) |-> MarginPoly(At(c, x, 1, j), At(c, x, 1, j + 1), "right", TRUE)])
                \o Flat([i \in 1..(Rows(c) - 1) |-> MarginPoly(At(c, x, i, 1), At(c, x, i + 1, 1), "bottom", TRUE)]))
      [] c.name = "PositionAxis" ->
            FacesPoly(SideNamed(x[1].Frame, c.side), SideNamed(x[1][AxisName(c, FALSE)], Opposite(c.side)))
            \o (IF c.twin THEN FacesPoly(SideNamed(x[1].Frame, Opposite(c.side)),
                                         SideNamed(x[1][AxisName(c, TRUE)], c.side)) ELSE <<>>)
      [] c.name = "PositionAxisLabel" ->
            LET p == x[1][AxisName(c, c.twin) \o "Label"] f == x[1].Frame
                p0 == a[1][AxisName(c, c.twin) \o "Label"] f0 == a[1].Frame
                l == IF c.axis = "x" THEN Bottom(f) ELSE <<f[1], f[4]>>
                l0 == IF c.axis = "x" THEN Bottom(f0) ELSE <<f0[1], f0[4]>>
            IN <<Len2(l0) * OnLineNum(p, l, FALSE) - OnLineNum(p0, l0, FALSE) * Len2(l)>>
      [] c.name = "XAxisThickness" -> <<Vec(Right(x[1]))[2]>>
      [] c.name = "YAxisThickness" -> <<Vec(Bottom(x[1]))[1]>>

LinearNames == {"Fix", "XDistance", "YDistance", "DirectedDistance", "Coincident", "DirectedLength",
    "XLength", "YLength", "Vertical", "Horizontal", "MidpointXDistance", "MidpointYDistance",
    "CoincidentLines", "Box", "Width", "Height", "OuterMargin", "InnerMargin", "OuterMarginArray",
    "CoincidentOutwardFaces", "PositionAxis", "XAxisThickness", "YAxisThickness"}
\* vanishing means that the relation holds
Relational == {"Coincident", "Vertical", "Horizontal", "Orthogonal", "Parallel", "Collinear",
    "CoincidentLines", "Box", "AlignRow", "AlignColumn", "CoincidentOutwardFaces", "RectilinearGrid",
    "PositionAxis", "XAxisThickness", "YAxisThickness"}

\* column of coordinate k of point i
Col(i, k) == 2 * (i - 1) + k
Shift(pts, i, k, d) == [pts EXCEPT ![i][k] = @ + d]
Doc(c, pts) == Polys(c, Args(c, pts), Args(c, pts))
AllZeroInts(s) == \A i \in DOMAIN s : s[i] = 0
\* grids need rectangular cells to hold or not
Sound(c, pts) == \A i \in DOMAIN c.sh :
    LET g == Args(c, pts)[i] IN
    CASE c.sh[i] = "L" -> c.name \in {"Vertical", "Horizontal", "XLength", "YLength"} \/ LineOk(g)
      [] c.sh[i] = "Q" -> c.name \in {"XAxisThickness", "YAxisThickness"} \/ QuadOk(g)
      [] OTHER -> TRUE
GridAligned(c, pts) == LET x == Args(c, pts) IN
    AllZeroInts(Polys([c EXCEPT !.name = "RectilinearGrid"], x, x))
Holds(c, pts) ==
    /\ Sound(c, pts)
    /\ CASE c.name \in Relational -> AllZeroInts(Doc(c, pts))
         [] c.name = "Grid" -> GridAligned(c, pts)
         [] c.name = "Angle" -> LET a == Args(c, pts) IN
                \* well inside the branch
                Dot(Vec(a[1]), Vec(a[2])) > 0 \/ Cross(Vec(a[1]), Vec(a[2])) # 0
         [] OTHER -> TRUE

\* differential of the constraint: for each polynomial [column |-> entry], sparse
Differential(c, pts) ==
    LET a == Args(c, pts)
        m == Len(Polys(c, a, a))
        D == TLCEval([i \in Ids(c), k \in {1, 2} |->
                LET u == Polys(c, a, Args(c, Shift(pts, i, k, 1)))
                    v == Polys(c, a, Args(c, Shift(pts, i, k, -1)))
                IN [r \in 1..m |-> (u[r] - v[r]) \div 2]])
    IN [r \in 1..m |-> [col \in {Col(i, k) : i \in Ids(c), k \in {1, 2}} |->
            D[(col + 1) \div 2, IF col % 2 = 1 THEN 1 ELSE 2][r]]]
\* linear constraints are affine: their differential is the same elsewhere
Affine(c, pts) == c.name \in LinearNames =>
    Differential(c, pts) = Differential(c, [i \in DOMAIN pts |-> <<3 * pts[i][2] - i * i, 2 * pts[i][1] + 5 * i>>])

\* coordinates that a constraint mentions
Mentions(c, pts) ==
    IF c.name \in LinearNames
    THEN LET d == Differential(c, pts) IN UNION {{col \in DOMAIN d[r] : d[r][col] # 0} : r \in DOMAIN d}
    ELSE {Col(i, k) : i \in Ids(c), k \in {1, 2}}

-----------------------------------------------------------------------------
\* Row reduction modulo a prime
Prime == 32749
RECURSIVE PowMod(_, _)
PowMod(x, e) == IF e = 0 THEN 1
                ELSE LET h == PowMod((x * x) % Prime, e \div 2)
                     IN IF e % 2 = 1 THEN (x * h) % Prime ELSE h
InvMod(x) == PowMod(x, Prime - 2)

\* basis: sequence of [col, row]; rows have 1 in their own column and 0 in the others'
Less(row, b) == LET f == row[b.col] IN
    IF f = 0 THEN row ELSE TLCEval([k \in DOMAIN row |-> (row[k] + (Prime - f) * b.row[k]) % Prime])
Insert(basis, row) ==
    LET r == FoldLeft(Less, row, basis)
        nz == {k \in DOMAIN r : r[k] # 0}
    IN IF nz = {} THEN basis
       ELSE LET col == CHOOSE k \in nz : \A m \in nz : k <= m
                inv == InvMod(r[col])
                b == [col |-> col, row |-> TLCEval([k \in DOMAIN r |-> (r[k] * inv) % Prime])]
            IN Append([i \in DOMAIN basis |-> [basis[i] EXCEPT !.row = Less(basis[i].row, b)]], b)
DenseMod(row, width) == [k \in 1..width |-> IF k \in DOMAIN row THEN row[k] % Prime ELSE 0]
Basis(rows, width) == FoldLeft(Insert, <<>>, [i \in DOMAIN rows |-> DenseMod(rows[i], width)])
\* columns whose unit row is in the span
DeterminedBy(basis) == {basis[i].col : i \in {j \in DOMAIN basis :
    \A k \in DOMAIN basis[j].row : k = basis[j].col \/ basis[j].row[k] = 0}}

Analysis ==
    LET pts == Case.pts
        cons == Case.cons
        rows == TLCEval(Flat([i \in DOMAIN cons |-> Differential(cons[i], pts)]))
        basis == TLCEval(Basis(rows, 2 * Len(pts)))
    IN [n |-> n,
        targets |-> [i \in DOMAIN cons |-> Targets(cons[i], pts)],
        rows |-> [i \in DOMAIN rows |-> {<<col, rows[i][col]>> : col \in {k \in DOMAIN rows[i] : rows[i][k] # 0}}],
        linear |-> \A i \in DOMAIN cons : cons[i].name \in LinearNames,
        rank |-> Len(basis),
        determined |-> DeterminedBy(basis),
        mentions |-> [i \in DOMAIN cons |-> Mentions(cons[i], pts)],
        involved |-> UNION {Mentions(cons[i], pts) : i \in DOMAIN cons}]

\* pass 1: which of the offered constraints hold; pass 2: the analysis
CONSTANT Pass
AllAffine == Pass = 2 => \A i \in DOMAIN Case.cons : Affine(Case.cons[i], Case.pts)
AllHold == Pass = 2 => \A i \in DOMAIN Case.cons : Holds(Case.cons[i], Case.pts)
Emit == PrintT("@" \o ToJson(
    IF Pass = 1 THEN [n |-> n, holds |-> [i \in DOMAIN Case.cons |-> Holds(Case.cons[i], Case.pts)]]
    ELSE Analysis))
=============================================================================
