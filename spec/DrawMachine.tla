----------------------------- MODULE DrawMachine -----------------------------
(***************************************************************************)
(* C21: drawing geometry into axes, one primitive at a time.  A tree is             *)
(* [k: kind, pts: its points, sub: its parts, where it has named ones]; kinds are     *)
(* P point, L line, G polygon (its lines join its points in turn) and N any other.      *)
(* Drawing a root under a name puts the artists of it and of all its parts in the axes.   *)
(*                                                                         *)
(* calls    what was drawn: [root, depth]: the root drawn, and its label depth           *)
(* agenda   what is still to be drawn of the last call: [path, t]                      *)
(* artists  what is in the axes: [a: kind, pts, text, dir, must]                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Families == JsonDeserialize(IOEnv.DATA)
CONSTANTS Calls, FreeDepth
VARIABLES fam, calls, agenda, artists
vars == <<fam, calls, agenda, artists>>
Roots == Families[fam].roots

LineName(i) == "Line" \o ToString(i - 1)
Line(p, q) == [k |-> "L", pts |-> <<p, q>>, sub |-> <<>>]
\* parts that are drawn: the ends of lines are not
Parts(t) ==
    CASE t.k = "G" -> [i \in DOMAIN t.pts |->
             [name |-> LineName(i), t |-> Line(t.pts[i], t.pts[(i % Len(t.pts)) + 1])]]
      [] t.k = "N" -> t.sub
      [] OTHER -> <<>>
Degenerate(t) == t.k = "L" /\ t.pts[1] = t.pts[2]

RECURSIVE Dots(_)
Dots(n) == IF n = 0 THEN "/" ELSE "." \o Dots(n - 1)
Text(path) == Dots(Len(path) - 1) \o path[Len(path)]
Direction(t) == IF t.k = "L" THEN <<t.pts[2][1] - t.pts[1][1], t.pts[2][2] - t.pts[1][2]>> ELSE <<0, 0>>
\* twice the place of the label
Place(t) == IF t.k = "L" THEN <<t.pts[1][1] + t.pts[2][1], t.pts[1][2] + t.pts[2][2]>>
            ELSE <<2 * t.pts[1][1], 2 * t.pts[1][2]>>
Shape(t) ==
    CASE t.k = "P" -> <<[a |-> "marker", pts |-> t.pts]>>
      [] t.k = "L" -> IF Degenerate(t) THEN <<>> ELSE <<[a |-> "segment", pts |-> t.pts]>>
      [] t.k = "G" -> <<[a |-> "outline", pts |-> t.pts]>>
      [] OTHER -> <<>>
\* lines without a direction may go without a label
Label(path, t, depth) ==
    IF t.k = "N" \/ Len(path) - 1 > depth THEN <<>>
    ELSE <<[a |-> "label", text |-> Text(path), place |-> Place(t), dir |-> Direction(t),
            must |-> ~Degenerate(t)]>>

Init == /\ fam \in DOMAIN Families
        /\ calls = <<>> /\ agenda = <<>> /\ artists = <<>>
Call(i, d) ==
    /\ agenda = <<>> /\ Len(calls) < Calls
    /\ calls' = Append(calls, [root |-> i, depth |-> d])
    /\ agenda' = <<[path |-> <<Roots[i].name>>, t |-> Roots[i].t]>>
    /\ UNCHANGED <<fam, artists>>
Draw ==
    /\ agenda # <<>>
    /\ LET x == Head(agenda) parts == Parts(x.t) IN
        /\ artists' = artists \o Shape(x.t) \o Label(x.path, x.t, calls[Len(calls)].depth)
        /\ agenda' = [i \in DOMAIN parts |-> [path |-> Append(x.path, parts[i].name), t |-> parts[i].t]]
                     \o Tail(agenda)
    /\ UNCHANGED <<fam, calls>>
Next == Draw \/ \E i \in DOMAIN Roots, d \in {0, 1, 2, FreeDepth} : Call(i, d)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* how many artists of a kind a tree has, without drawing it
RECURSIVE SumOf(_, _), Number(_, _)
SumOf(parts, what) == IF parts = <<>> THEN 0 ELSE Number(Head(parts).t, what) + SumOf(Tail(parts), what)
Number(t, what) ==
    (CASE what = "marker" -> IF t.k = "P" THEN 1 ELSE 0
      [] what = "outline" -> IF t.k = "G" THEN 1 ELSE 0
      [] what = "segment" -> IF t.k = "L" /\ t.pts[1] # t.pts[2] THEN 1
            ELSE IF t.k = "G" THEN Cardinality({i \in DOMAIN t.pts : t.pts[i] # t.pts[(i % Len(t.pts)) + 1]})
            ELSE 0)
    + (IF t.k = "N" THEN SumOf(t.sub, what) ELSE 0)
RECURSIVE SumCalls(_, _)
SumCalls(cs, what) == IF cs = <<>> THEN 0 ELSE Number(Roots[Head(cs).root].t, what) + SumCalls(Tail(cs), what)
Kinds == {"marker", "segment", "outline"}
\* everything is drawn, and drawn once
Complete == agenda = <<>> => \A what \in Kinds :
    Cardinality({i \in DOMAIN artists : artists[i].a = what}) = SumCalls(calls, what)
\* labels of no more than the greatest depth asked for
Shallow == \A i \in DOMAIN artists : artists[i].a = "label" =>
    \E c \in DOMAIN calls : \E n \in 0..calls[c].depth : SubSeq(artists[i].text, 1, n + 1) = Dots(n)
\* what was drawn stays
Stays == [][SubSeq(artists', 1, Len(artists)) = artists]_vars
Emit == (agenda = <<>> /\ calls # <<>>) =>
    PrintT("@" \o ToJson([fam |-> fam, calls |-> calls, artists |-> artists]))
=============================================================================
