------------------------------ MODULE GridCases ------------------------------
(***************************************************************************)
(* C14: the rectilinear-grid and grid constraints.                           *)
(*                                                                         *)
(* A grid is laid out from column widths, row heights and margins (rows from  *)
(* top to bottom, columns from left to right, row-major), then disturbed:      *)
(* one coordinate of one vertex, one quadrilateral, one whole row or column    *)
(* line, or one parameter is changed.  One state per disturbed grid.           *)
(***************************************************************************)
EXTENDS Geometry, Json, IOUtils

CONSTANTS Shapes,   \* set of <<rows, columns>>
          Salt,     \* varies the dimensions
          Deltas,
          FromData

SmallShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>}
LargeShapes == SmallShapes \cup {<<3, 3>>, <<1, 5>>, <<5, 1>>, <<2, 4>>, <<4, 2>>, <<3, 4>>, <<4, 3>>}
OneDelta == {1}
TwoDeltas == {1, -1}

VARIABLE g

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* dimensions of a shape: all distinct where it matters
Dims(s, t) ==
    [ws |-> [j \in 1..s[2] |-> 2 + ((3 * j + t) % 5)],
     hs |-> [i \in 1..s[1] |-> 2 + ((2 * i + t) % 7)],
     xs |-> [j \in 1..(s[2] - 1) |-> 1 + ((5 * j + 2 * t) % 4)],
     ys |-> [i \in 1..(s[1] - 1) |-> 1 + ((3 * i + t) % 6)]]

QuadOf(d, i, j) ==
    LET x == SumTo(d.ws, j - 1) + SumTo(d.xs, j - 1)
        y == -(SumTo(d.hs, i) + SumTo(d.ys, i - 1))
    IN <<<<x, y>>, <<x + d.ws[j], y>>, <<x + d.ws[j], y + d.hs[i]>>, <<x, y + d.hs[i]>>>>
GridOf(s, d) == [i \in 1..s[1] |-> [j \in 1..s[2] |-> QuadOf(d, i, j)]]
ParamsOf(d) ==
    [ws |-> [j \in 1..(Len(d.ws) - 1) |-> Norm(d.ws[j + 1], d.ws[1])],
     hs |-> [i \in 1..(Len(d.hs) - 1) |-> Norm(d.hs[i + 1], d.hs[1])],
     xs |-> [j \in DOMAIN d.xs |-> <<d.xs[j], 1>>],
     ys |-> [i \in DOMAIN d.ys |-> <<d.ys[i], 1>>]]

Perfect(s, t) == LET d == Dims(s, t) IN [shape |-> s, quads |-> GridOf(s, d), par |-> ParamsOf(d), move |-> "none"]

\* disturbances
MoveVertex(x, i, j, v, k, dl) ==
    [x EXCEPT !.quads[i][j][v][k] = @ + dl, !.move = "vertex"]
MoveQuad(x, i, j, k, dl) ==
    [x EXCEPT !.quads[i][j] = [v \in 1..4 |-> [@[v] EXCEPT ![k] = @ + dl]], !.move = "quad"]
\* the top (or bottom) line of a whole row, the left (or right) line of a column
MoveRowLine(x, i, top, dl) ==
    [x EXCEPT !.quads[i] = [j \in DOMAIN @ |-> [v \in 1..4 |->
        IF v \in (IF top THEN {3, 4} ELSE {1, 2}) THEN <<@[j][v][1], @[j][v][2] + dl>> ELSE @[j][v]]],
     !.move = "rowline"]
MoveColLine(x, j, left, dl) ==
    [x EXCEPT !.quads = [i \in DOMAIN @ |-> [@[i] EXCEPT ![j] = [v \in 1..4 |->
        IF v \in (IF left THEN {1, 4} ELSE {2, 3}) THEN <<@[v][1] + dl, @[v][2]>> ELSE @[v]]]],
     !.move = "colline"]
MoveParam(x, f, n, dl) == [x EXCEPT !.par[f][n] = RAdd(@, <<dl, 2>>), !.move = "param"]

Disturbed(x) ==
    LET R == 1..x.shape[1] C == 1..x.shape[2] IN
         {MoveVertex(x, i, j, v, k, dl) : i \in R, j \in C, v \in 1..4, k \in {1, 2}, dl \in Deltas}
    \cup {MoveQuad(x, i, j, k, dl) : i \in R, j \in C, k \in {1, 2}, dl \in Deltas}
    \cup {MoveRowLine(x, i, b, dl) : i \in R, b \in BOOLEAN, dl \in Deltas}
    \cup {MoveColLine(x, j, b, dl) : j \in C, b \in BOOLEAN, dl \in Deltas}
    \cup UNION {{MoveParam(x, f, n, dl) : n \in DOMAIN x.par[f], dl \in Deltas} : f \in {"ws", "hs", "xs", "ys"}}

Ok(x) == \A i \in DOMAIN x.quads : \A j \in DOMAIN x.quads[i] : QuadOk(x.quads[i][j])

Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}
Base == IF FromData THEN Recorded
        ELSE UNION {{Perfect(s, Salt)} \cup Disturbed(Perfect(s, Salt)) : s \in Shapes}
Init == \E x \in Base : Ok(x) /\ g = x
Next == FALSE /\ UNCHANGED g
Spec == Init /\ [][Next]_g

-----------------------------------------------------------------------------
\* every pair, not only neighbours
Rectilinear(x) ==
    /\ \A i \in 1..x.shape[1] : \A j, k \in 1..x.shape[2] :
          j < k => /\ SameLine(Bottom(x.quads[i][j]), Bottom(x.quads[i][k]))
                   /\ SameLine(Top(x.quads[i][j]), Top(x.quads[i][k]))
    /\ \A j \in 1..x.shape[2] : \A i, k \in 1..x.shape[1] :
          i < k => /\ SameLine(Left(x.quads[i][j]), Left(x.quads[k][j]))
                   /\ SameLine(Right(x.quads[i][j]), Right(x.quads[k][j]))

RatioIs(l, m, q) == /\ q[1] >= 0
                    /\ REq(<<Len2(l), 1>>, RMul(RMul(q, q), <<Len2(m), 1>>))

\* For quadrilaterals that are not rectangles the size of a row or column depends
\* on where it is measured: `Strict` requires it everywhere, `Loose` somewhere
WidthOk(x, j, i, side) ==
    RatioIs(SideNamed(x.quads[i][j + 1], side), SideNamed(x.quads[i][1], side), x.par.ws[j])
HeightOk(x, i, j, side) ==
    RatioIs(SideNamed(x.quads[i + 1][j], side), SideNamed(x.quads[1][j], side), x.par.hs[i])
XMarginOk(x, j, i) == EqualsRat(MarginOf(x.quads[i][j], x.quads[i][j + 1], "right", TRUE), x.par.xs[j])
YMarginOk(x, i, j) == EqualsRat(MarginOf(x.quads[i][j], x.quads[i + 1][j], "bottom", TRUE), x.par.ys[i])

Strict(x) == LET R == 1..x.shape[1] C == 1..x.shape[2] IN
    /\ Rectilinear(x)
    /\ \A j \in DOMAIN x.par.ws : \A i \in R : \A s \in {"bottom", "top"} : WidthOk(x, j, i, s)
    /\ \A i \in DOMAIN x.par.hs : \A j \in C : \A s \in {"left", "right"} : HeightOk(x, i, j, s)
    /\ \A j \in DOMAIN x.par.xs : \A i \in R : XMarginOk(x, j, i)
    /\ \A i \in DOMAIN x.par.ys : \A j \in C : YMarginOk(x, i, j)
Loose(x) == LET R == 1..x.shape[1] C == 1..x.shape[2] IN
    /\ Rectilinear(x)
    /\ \A j \in DOMAIN x.par.ws : \E i \in R : \E s \in {"bottom", "top"} : WidthOk(x, j, i, s)
    /\ \A i \in DOMAIN x.par.hs : \E j \in C : \E s \in {"left", "right"} : HeightOk(x, i, j, s)
    /\ \A j \in DOMAIN x.par.xs : \E i \in R : XMarginOk(x, j, i)
    /\ \A i \in DOMAIN x.par.ys : \E j \in C : YMarginOk(x, i, j)

Verdict(x) == IF Strict(x) THEN "zero" ELSE IF Loose(x) THEN "free" ELSE "nonzero"

-----------------------------------------------------------------------------
StrictIsLoose == Strict(g) => Loose(g)
PerfectIsGrid == (g.move = "none" /\ ~FromData) => Strict(g)
\* changing a dimension of an entire row or column keeps the grid rectilinear
LinesKeepRectilinear == g.move \in {"rowline", "colline", "param"} => Rectilinear(g)
ParamBreaks == g.move = "param" => ~Loose(g)
\* rectangles leave no freedom
BoxesAreDecided ==
    (\A i \in DOMAIN g.quads : \A j \in DOMAIN g.quads[i] :
        LET q == g.quads[i][j] IN q[1][2] = q[2][2] /\ q[3][2] = q[4][2] /\ q[1][1] = q[4][1] /\ q[2][1] = q[3][1])
    => Verdict(g) # "free"
Emit == PrintT("@" \o ToJson([grid |-> g, rect |-> Rectilinear(g), verdict |-> Verdict(g)]))
=============================================================================
