------------------------------ MODULE PathTree ------------------------------
(***************************************************************************)
(* Labelled ordered trees addressed by paths (sequences of child names):   *)
(* the value-level meaning of mpllayout.containers.Node.                    *)
(*                                                                         *)
(* A tree is a record [id, kind, ch] where `id` identifies the stored node *)
(* and its value, `kind` its type, and `ch` is the sequence of its children *)
(* [k |-> name, t |-> tree], in insertion order.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Leaf(i, kd) == [id |-> i, kind |-> kd, ch |-> <<>>]

Keys(t) == [i \in DOMAIN t.ch |-> t.ch[i].k]

\* Position of child `k`, 0 if there is none
Pos(t, k) == IF \E i \in DOMAIN t.ch : t.ch[i].k = k
             THEN CHOOSE i \in DOMAIN t.ch : t.ch[i].k = k ELSE 0

RECURSIVE Has(_, _)
Has(t, p) == IF p = <<>> THEN TRUE
             ELSE LET i == Pos(t, Head(p)) IN i # 0 /\ Has(t.ch[i].t, Tail(p))

RECURSIVE Get(_, _)
Get(t, p) == IF p = <<>> THEN t ELSE Get(t.ch[Pos(t, Head(p))].t, Tail(p))

\* Replace the subtree at an existing path, keeping every position
RECURSIVE Put(_, _, _)
Put(t, p, s) ==
    IF p = <<>> THEN s
    ELSE LET i == Pos(t, Head(p)) IN
         [t EXCEPT !.ch[i].t = Put(t.ch[i].t, Tail(p), s)]

\* The two mutations, as [ok, tree]
AddAt(t, p, s) ==
    LET par == Front(p) IN
    IF Has(t, p) \/ ~Has(t, par) THEN [ok |-> FALSE, tree |-> t]
    ELSE LET old == Get(t, par) IN
         [ok |-> TRUE,
          tree |-> Put(t, par, [old EXCEPT !.ch = Append(@, [k |-> Last(p), t |-> s])])]

SetAt(t, p, s) ==
    IF Has(t, p) THEN [ok |-> TRUE, tree |-> Put(t, p, s)]
    ELSE [ok |-> FALSE, tree |-> t]

\* Depth-first listing: parents before children, siblings in order
RECURSIVE IterFlat(_, _)
IterFlat(p, t) ==
    <<[p |-> p, id |-> t.id, kind |-> t.kind, keys |-> Keys(t)]>>
    \o FlattenSeq([i \in DOMAIN t.ch |-> IterFlat(Append(p, t.ch[i].k), t.ch[i].t)])

Flatten(t) == IterFlat(<<>>, t)

\* Rebuild from a listing; returns [tree, rest]
RECURSIVE Unflatten(_)
RECURSIVE UnflattenChildren(_, _)
Unflatten(flat) ==
    LET h == Head(flat)
        r == UnflattenChildren(h.keys, Tail(flat))
    IN [tree |-> [id |-> h.id, kind |-> h.kind, ch |-> r.ch], rest |-> r.rest]
UnflattenChildren(keys, flat) ==
    IF keys = <<>> THEN [ch |-> <<>>, rest |-> flat]
    ELSE LET c == Unflatten(flat)
             r == UnflattenChildren(Tail(keys), c.rest)
         IN [ch |-> <<[k |-> Head(keys), t |-> c.tree]>> \o r.ch, rest |-> r.rest]

RECURSIVE Height(_)
Height(t) == IF t.ch = <<>> THEN 0
             ELSE LET hs == {Height(t.ch[i].t) : i \in DOMAIN t.ch}
                  IN 1 + (CHOOSE h \in hs : \A g \in hs : g <= h)

RECURSIVE Size(_)
Size(t) == 1 + FoldSeq(LAMBDA c, acc : acc + Size(c.t), 0, t.ch)

\* Apply f to every value
RECURSIVE MapTree(_, _)
MapTree(f(_), t) ==
    [t EXCEPT !.id = f(@),
              !.ch = [i \in DOMAIN @ |-> [k |-> @[i].k, t |-> MapTree(f, @[i].t)]]]

\* Every subtree folded into its root: here with concatenation, so that the
\* order in which values are combined is visible
RECURSIVE Accumulate(_)
Accumulate(t) ==
    LET cs == [i \in DOMAIN t.ch |-> Accumulate(t.ch[i].t)]
    IN [id |-> <<t.id>> \o FlattenSeq([i \in DOMAIN cs |-> cs[i].id]),
        kind |-> t.kind,
        ch |-> [i \in DOMAIN t.ch |-> [k |-> t.ch[i].k, t |-> cs[i]]]]

DistinctNames(t) == IsInjective(Keys(t))
=============================================================================
