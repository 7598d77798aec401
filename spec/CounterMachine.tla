--------------------------- MODULE CounterMachine ---------------------------
(***************************************************************************)
(* C06: the item counter.  Names are a category followed by a number, numbers   *)
(* are given consecutively from zero within each category, whatever the names    *)
(* look like: "A1" is a category as well as the second name of "A".              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Categories, Refused, Depth
CatsA == {"A", "A1"}
\* names that the condition of an addition refuses
RefusedA == {{}, {"A0"}, {"A0", "A1", "A10"}, {"A1", "A11"}, {"A10"}}

Name(cat, n) == cat \o ToString(n)
\* counts: categories that have been counted |-> next number
Next0(counts, cat) == IF cat \in DOMAIN counts THEN counts[cat] ELSE 0
RECURSIVE Free(_, _, _)
Free(cat, n, bad) == IF Name(cat, n) \in bad THEN Free(cat, n + 1, bad) ELSE n
\* the number given to an item of category cat whose name must not be in bad
Number(counts, cat, bad) == Free(cat, Next0(counts, cat), bad)
Counted(counts, cat, n) == [c \in DOMAIN counts \cup {cat} |-> IF c = cat THEN n + 1 ELSE counts[c]]

VARIABLES counts, given, h
vars == <<counts, given, h>>
Init == counts = <<>> /\ given = <<>> /\ h = <<>>
Add(cat, bad) == LET n == Number(counts, cat, bad) IN
    /\ Len(h) < Depth
    /\ counts' = Counted(counts, cat, n)
    /\ given' = Append(given, <<cat, n>>)
    /\ h' = Append(h, [cat |-> cat, bad |-> bad])
Next == \E cat \in Categories, bad \in Refused : Add(cat, bad)
Spec == Init /\ [][Next]_vars

\* the numbers of a category strictly increase and never reach the count
Increasing == \A i, j \in DOMAIN given :
    (i < j /\ given[i][1] = given[j][1]) => given[i][2] < given[j][2]
Below == \A i \in DOMAIN given : given[i][2] < counts[given[i][1]]
\* without refusals the numbers are 0, 1, 2, ...
Consecutive == (\A i \in DOMAIN h : h[i].bad = {}) =>
    \A c \in DOMAIN counts : counts[c] = Cardinality({i \in DOMAIN given : given[i][1] = c})
\* a step leaves the other categories alone
Independent == [][\A c \in DOMAIN counts : c # h'[Len(h')].cat => counts'[c] = counts[c]]_vars
Emit == Len(h) = Depth => PrintT("@" \o ToJson(h))
=============================================================================
