------------------------------ MODULE Thickness ------------------------------
(***************************************************************************)
(* C19: the thickness of a drawn axis.  Lengths are millionths of an inch.        *)
(*                                                                         *)
(* artists   what an axis draws: [kind, visible, box], kind "tick" (a tick label),     *)
(*           "offset" (the common factor of the tick labels) or "label"             *)
(* boxes     <<left, bottom, right, top>>; those without area are not drawn            *)
(*                                                                         *)
(* Measuring hides the axis label, reads the extent of what is left and shows the      *)
(* label again if it was visible; reading may fail, the label comes back all the       *)
(* same.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Drawn(a) == a.visible /\ a.box[1] < a.box[3] /\ a.box[2] < a.box[4]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* how far boxes stand out of a frame
Beyond(frame, side, boxes) ==
    CASE side = "bottom" -> frame[2] - MinOf({b[2] : b \in boxes})
      [] side = "top"    -> MaxOf({b[4] : b \in boxes}) - frame[4]
      [] side = "left"   -> frame[1] - MinOf({b[1] : b \in boxes})
      [] side = "right"  -> MaxOf({b[3] : b \in boxes}) - frame[3]
Sides == {"bottom", "top", "left", "right"}

\* what the thickness is
Shown(shown, artists) == IF ~shown THEN {} ELSE {a \in artists : a.kind # "label" /\ Drawn(a)}
ThicknessOf(frame, side, shown, artists) ==
    LET boxes == {a.box : a \in Shown(shown, artists)}
    IN IF boxes = {} THEN 0 ELSE Beyond(frame, side, boxes)

-----------------------------------------------------------------------------
\* the act of measuring
CONSTANTS Frame, Boxes
VARIABLES side, shown, ticks, label, wasVisible, phase, value
vars == <<side, shown, ticks, label, wasVisible, phase, value>>
None == "none"
Init == /\ side \in Sides /\ shown \in BOOLEAN
        /\ ticks \in SUBSET [kind : {"tick"}, visible : BOOLEAN, box : Boxes]
        /\ label \in [kind : {"label"}, visible : BOOLEAN, box : Boxes]
        /\ wasVisible = label.visible /\ phase = "start" /\ value = None
Hide == phase = "start" /\ label' = [label EXCEPT !.visible = FALSE] /\ phase' = "hidden"
        /\ UNCHANGED <<side, shown, ticks, wasVisible, value>>
\* the extent of all that is visible
Extent == LET S == IF shown THEN {a \in ticks \cup {label} : Drawn(a)} ELSE {} IN
          IF S = {} THEN 0 ELSE Beyond(Frame, side, {a.box : a \in S})
Read == phase = "hidden" /\ value' = Extent /\ phase' = "read"
        /\ UNCHANGED <<side, shown, ticks, label, wasVisible>>
Fail == phase = "hidden" /\ phase' = "failed" /\ UNCHANGED <<side, shown, ticks, label, wasVisible, value>>
Restore == /\ phase \in {"read", "failed"} /\ label' = [label EXCEPT !.visible = wasVisible]
           /\ phase' = IF phase = "read" THEN "done" ELSE "rejected"
           /\ UNCHANGED <<side, shown, ticks, wasVisible, value>>
Spec == Init /\ [][Hide \/ Read \/ Fail \/ Restore]_vars

Right == phase = "done" => value = ThicknessOf(Frame, side, shown, ticks \cup {label})
Undone == phase \in {"done", "rejected"} => label.visible = wasVisible
LabelIsIgnored == \A v \in BOOLEAN : ThicknessOf(Frame, side, shown, ticks)
    = ThicknessOf(Frame, side, shown, ticks \cup {[label EXCEPT !.visible = v]})

F == <<0, 0, 4, 4>>
B == {<<1, -2, 2, -1>>, <<-3, 1, -1, 2>>, <<3, 5, 4, 6>>, <<5, 0, 9, 1>>, <<2, 2, 2, 2>>}
=============================================================================
