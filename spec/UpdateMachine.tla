---------------------------- MODULE UpdateMachine ----------------------------
(***************************************************************************)
(* C20: layouts and drawn figures.  A family gives the constraints of the first     *)
(* layout: <<[kind, key]>>, kind "X", "Y" (axis thickness, of the axes under key), "XY"   *)
(* (a constraint made of both) or "other".  All figures have axes under all keys.      *)
(*                                                                         *)
(* layouts   the layouts made so far, each a sequence of constraint parameters:         *)
(*           [own, axes], axes one [fig, key, axis, state] for every axis thickness in it:  *)
(*           the axis of a figure, with the thickness it had in that state, fig 0 is no    *)
(*           axis; own is a number for other constraints and 0                         *)
(* drawn     [figure -> [key -> [axis -> state]]]: how the axes are drawn now             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Families == JsonDeserialize(IOEnv.DATA)
CONSTANTS Depth, Figures
VARIABLES fam, layouts, drawn, h
vars == <<fam, layouts, drawn, h>>
Family == Families[fam]
Range(s) == {s[i] : i \in DOMAIN s}
Keys == Range(Family.keys)
Axes == {"X", "Y"}

Nothing(c) == LET one(a) == [fig |-> 0, key |-> c.key, axis |-> a, state |-> 0]
    IN [own |-> 0, axes |-> IF c.kind = "XY" THEN <<one("X"), one("Y")>> ELSE <<one(c.kind)>>]
Own(n) == [own |-> n, axes |-> <<>>]
First == [i \in DOMAIN Family.cons |->
    IF Family.cons[i].kind = "other" THEN Own(i) ELSE Nothing(Family.cons[i])]
Init == /\ fam \in DOMAIN Families /\ h = <<>>
        /\ layouts = <<First>>
        /\ drawn = [f \in 1..Figures |-> [k \in Keys |-> [a \in Axes |-> 0]]]

IsThickness(p) == p.own = 0
Carried(p, f) == [p EXCEPT !.axes = [i \in DOMAIN p.axes |->
    [p.axes[i] EXCEPT !.fig = f, !.state = drawn[f][p.axes[i].key][p.axes[i].axis]]]]
\* a layout like v with the axes of figure f
Update(v, f) ==
    /\ layouts' = Append(layouts, [i \in DOMAIN layouts[v] |->
           IF IsThickness(layouts[v][i]) THEN Carried(layouts[v][i], f) ELSE layouts[v][i]])
    /\ h' = Append(h, [op |-> "update", v |-> v, f |-> f]) /\ UNCHANGED <<fam, drawn>>
\* the axis of a figure is drawn in another way
Redraw(f, k, a) ==
    /\ drawn' = [drawn EXCEPT ![f][k][a] = 1 - @]
    /\ h' = Append(h, [op |-> "redraw", f |-> f, key |-> k, axis |-> a]) /\ UNCHANGED <<fam, layouts>>
\* one more constraint in layout v, of a kind
Add(v, kind, k) ==
    /\ layouts' = [layouts EXCEPT ![v] = Append(@,
           IF kind = "other" THEN Own(Len(@) + 1) ELSE Nothing([key |-> k, kind |-> kind]))]
    /\ h' = Append(h, [op |-> "add", v |-> v, kind |-> kind, key |-> k]) /\ UNCHANGED <<fam, drawn>>
Next == Len(h) < Depth /\
    \/ \E v \in DOMAIN layouts, f \in 1..Figures : Update(v, f)
    \/ \E f \in 1..Figures, k \in Keys, a \in Axes : Redraw(f, k, a)
    \/ \E v \in DOMAIN layouts, kind \in {"X", "Y", "XY", "other"} :
           Add(v, kind, Family.keys[(Len(h) % Len(Family.keys)) + 1])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* only thickness parameters ever differ from those of the first layout, and axes are
\* carried for their own rectangle
OnlyThickness == \A v \in DOMAIN layouts : \A i \in DOMAIN First :
    IF IsThickness(First[i])
    THEN LET now == layouts[v][i].axes first == First[i].axes IN
         /\ layouts[v][i].own = 0 /\ Len(now) = Len(first)
         /\ \A j \in DOMAIN first : now[j].key = first[j].key /\ now[j].axis = first[j].axis
    ELSE layouts[v][i] = First[i]
\* layouts made before do not change, except for what is added to them
Before == [][\A v \in DOMAIN layouts :
    SubSeq(layouts'[v], 1, Len(layouts[v])) = layouts[v]]_vars
\* a layout just updated is up to date
UpToDate == (h # <<>> /\ h[Len(h)].op = "update") =>
    \A i \in DOMAIN layouts[Len(layouts)] : LET p == layouts[Len(layouts)][i] IN
        IsThickness(p) => \A j \in DOMAIN p.axes : LET a == p.axes[j] IN
            a.fig = h[Len(h)].f /\ a.state = drawn[a.fig][a.key][a.axis]
Emit == h # <<>> => PrintT("@" \o ToJson([fam |-> fam, h |-> h, layouts |-> layouts]))
=============================================================================
