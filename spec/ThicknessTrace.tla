--------------------------- MODULE ThicknessTrace ---------------------------
(***************************************************************************)
(* Recorded measurements of real axes.  A record:                            *)
(*   frame, side, shown, artists   what a twin of the figure draws               *)
(*   before, after                 the state of the axis around the measurement     *)
(*   ok, value                     what was measured                              *)
(*   must                          whether measuring must succeed                   *)
(*   rects                         constraint evaluations                           *)
(*        [size, axis, ok, res]    rectangle of that height (x) or width (y), with     *)
(*                                 this axis ("axis") or none ("none")                 *)
(*   tol                           tolerance of all comparisons                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Records == JsonDeserialize(IOEnv.DATA)
VARIABLES r, verdict
M == INSTANCE Thickness WITH Frame <- <<0, 0, 0, 0>>, Boxes <- {}, side <- "", shown <- FALSE,
    ticks <- {}, label <- <<>>, wasVisible <- FALSE, phase <- "", value <- 0
Rec == Records[r]
Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= Rec.tol

Artists == Range(Rec.artists)
Nothing == M!Shown(Rec.shown, Artists) = {}
\* only decided for the four sides
Decided == Nothing \/ Rec.side \in M!Sides
True == M!ThicknessOf(Rec.frame, Rec.side, Rec.shown, Artists)
\* with the magnitude of the residual
RectOk(x) == LET t == IF x.axis = "none" THEN 0 ELSE True IN
    x.ok /\ Near(x.res, Abs(x.size - t))
Clause ==
    IF Rec.after # Rec.before THEN "side-effect"
    ELSE IF Rec.must /\ ~Decided THEN "machinery"
    ELSE IF Rec.must /\ ~Rec.ok THEN "measures"
    ELSE IF Rec.must /\ ~Near(Rec.value, True) THEN "thickness"
    ELSE IF Rec.must /\ \E i \in DOMAIN Rec.rects : ~RectOk(Rec.rects[i]) THEN "constraint"
    ELSE "accepted"
Init == r \in 1..Len(Records) /\ verdict = "open"
Next == verdict = "open" /\ verdict' = Clause /\ r' = r
        /\ PrintT("@" \o ToJson([r |-> r, clause |-> verdict', true |-> IF Decided THEN True ELSE 0]))
Spec == Init /\ [][Next]_<<r, verdict>>
=============================================================================
