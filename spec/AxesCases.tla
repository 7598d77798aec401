------------------------------ MODULE AxesCases ------------------------------
(***************************************************************************)
(* C15: positioning of axis rectangles and axis labels.                      *)
(*                                                                         *)
(* An axes is a record of parts (Frame, XAxis, XAxisLabel, YAxis, ..., twins). *)
(* Every single coordinate of every part is disturbed in turn, for every         *)
(* constraint.                                                              *)
(***************************************************************************)
EXTENDS Geometry, Json, IOUtils

CONSTANTS Bases, Deltas, FromData
OneBase == {1}
AllBases == {1, 2, 3}
OneDelta == {1}
TwoDeltas == {1, -2}

VARIABLE a

BoxOf(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>>
\* outside the given side of a box, of thickness t
Outside(q, s, t) ==
    LET x == q[1][1] y == q[1][2] w == q[2][1] - q[1][1] h == q[3][2] - q[1][2]
    IN CASE s = "bottom" -> BoxOf(x, y - t, w, t) [] s = "top" -> BoxOf(x, y + h, w, t)
         [] s = "left" -> BoxOf(x - t, y, t, h) [] s = "right" -> BoxOf(x + w, y, t, h)

BaseFrame(n) == CASE n = 1 -> BoxOf(1, 2, 8, 4) [] n = 2 -> BoxOf(-7, -3, 4, 10) [] n = 3 -> BoxOf(0, 0, 6, 6)
QuadParts == {"Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"}
PointParts == {"XAxisLabel", "YAxisLabel", "TwinXAxisLabel", "TwinYAxisLabel"}

\* labels at different fractions of the frame, away from the edges they slide along
LabelAt(q, num, den, horizontal, off) ==
    IF horizontal THEN <<q[1][1] + ((q[2][1] - q[1][1]) * num) \div den, q[1][2] + off>>
    ELSE <<q[1][1] + off, q[1][2] + ((q[3][2] - q[1][2]) * num) \div den>>

\* an axes satisfying: axis rectangles outside xs / ys, twins on the opposite sides
Good(n, xs, ys) == LET f == BaseFrame(n) IN
    [Frame |-> f,
     XAxis |-> Outside(f, xs, 1), TwinXAxis |-> Outside(f, Opposite(xs), 2),
     YAxis |-> Outside(f, ys, 3), TwinYAxis |-> Outside(f, Opposite(ys), 1),
     XAxisLabel |-> LabelAt(f, 1, 2, TRUE, -3), TwinXAxisLabel |-> LabelAt(f, 1, 4, TRUE, 9),
     YAxisLabel |-> LabelAt(f, 1, 2, FALSE, -5), TwinYAxisLabel |-> LabelAt(f, 3, 4, FALSE, 11)]

\* constraints: [name, axis, side, twin, target]
Kons ==
    {[name |-> "axis", axis |-> "x", side |-> s, twin |-> t, target |-> <<0, 1>>]
        : s \in {"bottom", "top"}, t \in BOOLEAN}
    \cup {[name |-> "axis", axis |-> "y", side |-> s, twin |-> t, target |-> <<0, 1>>]
        : s \in {"left", "right"}, t \in BOOLEAN}
Labels == {[name |-> "label", axis |-> x, side |-> "", twin |-> t, target |-> q]
        : x \in {"x", "y"}, t \in BOOLEAN, q \in {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<-1, 4>>}}

SidesFor(k) == IF k.name = "axis"
               THEN IF k.axis = "x" THEN {<<k.side, "left">>, <<Opposite(k.side), "left">>}
                    ELSE {<<"bottom", k.side>>, <<"bottom", Opposite(k.side)>>}
               ELSE {<<"bottom", "left">>}

None == [part |-> "", v |-> 0, k |-> 0, d |-> 0]
Moves == {None} \cup [part : QuadParts, v : 1..4, k : {1, 2}, d : Deltas]
                \cup [part : PointParts, v : {0}, k : {1, 2}, d : Deltas]
Apply(x, m) == IF m.part = "" THEN x
               ELSE IF m.part \in QuadParts THEN [x EXCEPT ![m.part][m.v][m.k] = @ + m.d]
               ELSE [x EXCEPT ![m.part][m.k] = @ + m.d]

IsBox(q) == q[1][2] = q[2][2] /\ q[3][2] = q[4][2] /\ q[1][1] = q[4][1] /\ q[2][1] = q[3][1]
FrameSize(x, ax) == IF ax = "x" THEN x.Frame[2][1] - x.Frame[1][1] ELSE x.Frame[3][2] - x.Frame[1][2]
Prefix(k) == IF k.twin THEN "Twin" ELSE ""
AxisPart(k, twin) == (IF twin THEN "Twin" ELSE "") \o (IF k.axis = "x" THEN "XAxis" ELSE "YAxis")
LabelPart(k) == AxisPart(k, k.twin) \o "Label"

\* fraction of the frame's width from the left, of its height from the bottom
Fraction(x, k) ==
    LET p == x[LabelPart(k)]
    IN IF k.axis = "x" THEN Norm(p[1] - x.Frame[1][1], FrameSize(x, "x"))
       ELSE Norm(p[2] - x.Frame[1][2], FrameSize(x, "y"))

Attached(x, part, s) == FacesMeet(SideNamed(x.Frame, s), SideNamed(x[part], Opposite(s)))
Holds(x, k) ==
    IF k.name = "axis"
    THEN /\ Attached(x, AxisPart(k, FALSE), k.side)
         /\ k.twin => Attached(x, AxisPart(k, TRUE), Opposite(k.side))
    ELSE REq(Fraction(x, k), k.target)

\* the parts a constraint is about
Involved(k) == IF k.name = "axis" THEN {"Frame", AxisPart(k, FALSE)} \cup (IF k.twin THEN {AxisPart(k, TRUE)} ELSE {})
               ELSE {"Frame", LabelPart(k)}

\* the frame has to be a rectangle for fractions, and nothing may be degenerate
Decided(x, k) ==
    /\ \A p \in QuadParts : QuadOk(x[p])
    /\ k.name = "label" => IsBox(x.Frame)

\* a label constraint is also stated with its actual fraction as target
WithTarget(x, k) == IF k.name = "label" /\ IsBox(x.Frame) /\ FrameSize(x, k.axis) # 0
                    THEN {k, [k EXCEPT !.target = Fraction(x, k)]} ELSE {k}

Enumerated ==
    UNION {UNION {UNION {
        LET x == Apply(Good(b, s[1], s[2]), m) IN {[axes |-> x, kon |-> kk, move |-> m] : kk \in WithTarget(x, k)}
        : m \in Moves} : s \in SidesFor(k)} : k \in Kons \cup Labels, b \in Bases}
Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}
Init == \E x \in (IF FromData THEN Recorded ELSE Enumerated) : Decided(x.axes, x.kon) /\ a = x
Next == FALSE /\ UNCHANGED a
Spec == Init /\ [][Next]_a

-----------------------------------------------------------------------------
\* parts a constraint is not about never decide it
OthersIrrelevant ==
    a.move.part \notin Involved(a.kon) \cup {""} =>
        Holds(a.axes, a.kon) = Holds(Apply(a.axes, [a.move EXCEPT !.d = -a.move.d]), a.kon)
\* without a twin, the twin's rectangle does not matter; with one, both must be attached
TwinImpliesPlain == (a.kon.name = "axis" /\ a.kon.twin /\ Holds(a.axes, a.kon)) =>
                        Holds(a.axes, [a.kon EXCEPT !.twin = FALSE])
OneSideOnly == (a.kon.name = "axis" /\ Holds(a.axes, a.kon)) =>
                        ~Holds(a.axes, [a.kon EXCEPT !.side = Opposite(a.kon.side)])
Emit == PrintT("@" \o ToJson([axes |-> a.axes, kon |-> a.kon, move |-> a.move,
            holds |-> Holds(a.axes, a.kon), involved |-> Involved(a.kon)]))
=============================================================================
