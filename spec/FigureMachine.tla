---------------------------- MODULE FigureMachine ----------------------------
(***************************************************************************)
(* C18: figures and axes made from geometry.  A family is a list of geometries      *)
(* with the same axes; histories create a figure from one of them and update some     *)
(* or all of its axes from others.  Positions in a figure are fractions of it, so      *)
(* what an update does not touch stays where it was relative to the figure.             *)
(*                                                                         *)
(* geometry  [fig |-> quad, axes |-> [key |-> [part |-> quad or point]]]             *)
(*           quads are <<bottom left, bottom right, top right, top left>>               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Families == JsonDeserialize(IOEnv.DATA)
CONSTANT Depth
VARIABLES fam, figure, h, warned
vars == <<fam, figure, h, warned>>

Range(s) == {s[i] : i \in DOMAIN s}
Family == Families[fam]
Geoms == DOMAIN Family.geoms

\* -- geometry to figure ------------------------------------------------------------
Size(g) == <<g.fig[3][1] - g.fig[1][1], g.fig[3][2] - g.fig[1][2]>>
\* fractions are <<numerator, denominator>>
InFigure(g, p) == <<<<p[1] - g.fig[1][1], Size(g)[1]>>, <<p[2] - g.fig[1][2], Size(g)[2]>>>>
Rect(g, q) == [left |-> InFigure(g, q[1])[1], bottom |-> InFigure(g, q[1])[2],
               right |-> InFigure(g, q[3])[1], top |-> InFigure(g, q[3])[2]]

\* faces run in opposite directions
Attached(f, q) ==
    (IF q[4] = f[1] /\ q[3] = f[2] THEN {"bottom"} ELSE {}) \cup
    (IF q[1] = f[4] /\ q[2] = f[3] THEN {"top"} ELSE {}) \cup
    (IF q[2] = f[1] /\ q[3] = f[4] THEN {"left"} ELSE {}) \cup
    (IF q[1] = f[2] /\ q[4] = f[3] THEN {"right"} ELSE {})
Has(a, k) == k \in DOMAIN a
\* ticks of an axis drawn from geometry: a side, or anywhere
Ticks(a, k) == LET s == Attached(a.Frame, a[k]) IN
    IF s = {} THEN "anywhere" ELSE CHOOSE x \in s : TRUE

Auto == "auto"
Untouched == [rect |-> [left |-> <<0, 1>>, bottom |-> <<0, 1>>, right |-> <<1, 1>>, top |-> <<1, 1>>],
              xlabel |-> Auto, ylabel |-> Auto, xticks |-> "bottom", yticks |-> "left"]
Moved(old, g, a) ==
    [rect |-> Rect(g, a.Frame),
     xlabel |-> IF Has(a, "XAxisLabel") THEN InFigure(g, a.XAxisLabel) ELSE old.xlabel,
     ylabel |-> IF Has(a, "YAxisLabel") THEN InFigure(g, a.YAxisLabel) ELSE old.ylabel,
     xticks |-> IF Has(a, "XAxis") THEN Ticks(a, "XAxis") ELSE old.xticks,
     yticks |-> IF Has(a, "YAxis") THEN Ticks(a, "YAxis") ELSE old.yticks]
Loose(a) == \E k \in {"XAxis", "YAxis"} : Has(a, k) /\ Attached(a.Frame, a[k]) = {}

Contains(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
AxesNamed(keys) == SelectSeq(keys, LAMBDA k : Contains(k, "Axes"))

-----------------------------------------------------------------------------
Init == fam \in DOMAIN Families /\ h = <<>> /\ warned = FALSE
        /\ figure = [size |-> <<0, 0>>, order |-> <<>>, axes |-> <<>>]
Record(op, n, keys) == h' = Append(h, [op |-> op, g |-> n, keys |-> keys])
Create(n, keys, op) ==
    LET g == Family.geoms[n] IN
    /\ h = <<>> /\ fam' = fam
    /\ figure' = [size |-> Size(g), order |-> keys,
                  axes |-> [k \in Range(keys) |-> Moved(Untouched, g, g.axes[k])]]
    /\ warned' = (\E k \in Range(keys) : Loose(g.axes[k]))
    /\ Record(op, n, keys)
Update(n, keys) ==
    LET g == Family.geoms[n] IN
    /\ h # <<>> /\ Len(h) < Depth /\ fam' = fam /\ Range(keys) \subseteq DOMAIN figure.axes
    /\ figure' = [size |-> Size(g), order |-> figure.order,
                  axes |-> [k \in DOMAIN figure.axes |->
                      IF k \in Range(keys) THEN Moved(figure.axes[k], g, g.axes[k]) ELSE figure.axes[k]]]
    /\ warned' = (\E k \in Range(keys) : Loose(g.axes[k]))
    /\ Record("update", n, keys)
Next == \E n \in Geoms :
    \/ \E keys \in Range(Family.requests) : Create(n, keys, "create") \/ Update(n, keys)
    \/ Create(n, AxesNamed(Family.keys), "default")
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == h[Len(h)]
\* what was just updated is as if it had been created
AsAnew == h # <<>> => \A k \in Range(Last.keys) :
    LET a == Family.geoms[Last.g].axes[k]
        new == Moved(Untouched, Family.geoms[Last.g], a)
        now == figure.axes[k]
    IN /\ now.rect = new.rect
       /\ Has(a, "XAxisLabel") => now.xlabel = new.xlabel
       /\ Has(a, "YAxis") => now.yticks = new.yticks
       /\ figure.size = Size(Family.geoms[Last.g])
OneSide == \A i \in DOMAIN Family.geoms : \A k \in DOMAIN Family.geoms[i].axes :
    LET a == Family.geoms[i].axes[k] IN
    \A x \in {"XAxis", "YAxis"} : Has(a, x) => Cardinality(Attached(a.Frame, a[x])) <= 1
OthersStay == [][h # <<>> => \A k \in DOMAIN figure.axes \ Range(h'[Len(h')].keys) :
    figure'.axes[k] = figure.axes[k]]_vars
Emit == h # <<>> => PrintT("@" \o ToJson([fam |-> fam, h |-> h, figure |-> figure, warned |-> warned]))
=============================================================================
