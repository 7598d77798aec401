---------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* C05, C06: recorded histories of real layouts.  Constraints are expressions   *)
(* of Algebra, so the value of the layout is known exactly: rows with the value  *)
(* the layout must have are emitted for the events that evaluate it.             *)
(***************************************************************************)
EXTENDS Algebra, Json, IOUtils

Traces == JsonDeserialize(IOEnv.DATA)
VARIABLES tid, l, prims, cons, verdict
vars == <<tid, l, prims, cons, verdict>>
\* prims: <<[name, kind, v]>>, cons: <<[key, e, args, params, id]>>; args are paths

Init == tid \in 1..Len(Traces) /\ l = 0 /\ prims = <<>> /\ cons = <<>> /\ verdict = "ok"

PrimNames == {prims[i].name : i \in DOMAIN prims}
PrimOf(name) == prims[CHOOSE i \in DOMAIN prims : prims[i].name = name]

RECURSIVE PathOk(_, _, _)
PathOk(kind, v, path) ==
    \/ path = <<>>
    \/ LET k == Head(path) IN
       /\ CASE kind = "P" -> FALSE
            [] kind = "L" -> k \in {"Point0", "Point1"}
            [] kind = "Q" -> k \in {"Line0", "Line1", "Line2", "Line3"}
            [] kind \in {"A", "C", "D"} -> k \in DOMAIN v
       /\ PathOk(ChildKind(kind, k), Child(kind, v, k), Tail(path))
ArgOk(a, kind) == /\ a # <<>> /\ Head(a) \in PrimNames
                  /\ LET p == PrimOf(Head(a)) IN
                     PathOk(p.kind, p.v, Tail(a)) /\ KindAt(p.kind, Tail(a)) = kind
ArgValue(a) == LET p == PrimOf(Head(a)) IN At(p.kind, p.v, Tail(a))

\* every nested part is given the number of parameters it takes
RECURSIVE NestedOk(_)
NestedOk(e) ==
    CASE e.op = "sum" -> NestedOk(e.a) /\ NestedOk(e.b)
      [] e.op \in {"leaf", "scalar", "vector"} -> TRUE
      [] e.op = "compound" -> \A i \in DOMAIN e.kids :
            Len(e.kids[i].params) = Len(ParamKinds(e.kids[i].e)) /\ NestedOk(e.kids[i].e)
      [] OTHER -> NestedOk(e.a)

Keys == [i \in DOMAIN cons |-> cons[i].key]
Used == {cons[i].key : i \in DOMAIN cons}
Acceptable(ev) ==
    /\ Len(ev.args) = Len(Kinds(ev.e))
    /\ \A i \in DOMAIN ev.args : ArgOk(ev.args[i], Kinds(ev.e)[i])
    /\ Len(ev.params) = Len(ParamKinds(ev.e))
    /\ NestedOk(ev.e)
    /\ ev.key \notin Used

In(x, s) == \E i \in DOMAIN s : s[i] = x
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
NameOk(ev) == IF ev.key # "" THEN ev.got = ev.key
              ELSE ev.got \notin Used /\ \E i \in DOMAIN ev.prefixes : StartsWith(ev.got, ev.prefixes[i])

\* [ok, prims, cons] after an event
Apply(ev) ==
    CASE ev.op = "prim" ->
           IF ev.name \in PrimNames THEN [ok |-> FALSE, prims |-> prims, cons |-> cons]
           ELSE [ok |-> TRUE, prims |-> Append(prims, [name |-> ev.name, kind |-> ev.kind, v |-> ev.v]), cons |-> cons]
      [] ev.op = "prims" ->     \* several at once, none of them known
           [ok |-> TRUE, cons |-> cons,
            prims |-> prims \o [i \in DOMAIN ev.new |->
                [name |-> ev.new[i].name, kind |-> ev.new[i].kind, v |-> ev.new[i].v]]]
      [] ev.op = "con" ->
           IF Acceptable(ev)
           THEN [ok |-> TRUE, prims |-> prims,
                 cons |-> Append(cons, [key |-> ev.got, e |-> ev.e, args |-> ev.args, params |-> ev.params, id |-> ev.id])]
           ELSE [ok |-> FALSE, prims |-> prims, cons |-> cons]
      [] ev.op \in {"rebuild", "eval"} -> [ok |-> TRUE, prims |-> prims, cons |-> cons]

Clause(ev, r) ==
    LET ks == [i \in DOMAIN r.cons |-> r.cons[i].key] IN
    IF ev.ok # r.ok THEN "outcome"
    ELSE IF ev.op = "con" /\ r.ok /\ ~NameOk(ev) THEN "name"
    ELSE IF ev.primkeys # [i \in DOMAIN r.prims |-> r.prims[i].name] THEN "primitives"
    ELSE IF ev.keys # ks THEN "constraints"
    ELSE IF ev.keykeys # ks THEN "primitive-references"
    ELSE IF ev.parkeys # ks THEN "parameters"
    \* under every name: the constraint, arguments and parameters it was added with
    ELSE IF Len(ev.stored) # Len(r.cons) \/ \E i \in DOMAIN r.cons :
              \/ ev.stored[i].args # r.cons[i].args
              \/ ~In(r.cons[i].id, ev.stored[i].ids) \/ ~In(r.cons[i].id, ev.stored[i].params)
         THEN "stored"
    ELSE IF ~ev.nested THEN "nested-in-step"
    ELSE "ok"

Value == FlattenSeqs([i \in DOMAIN cons |->
    Eval(cons[i].e, [j \in DOMAIN cons[i].args |-> ArgValue(cons[i].args[j])], cons[i].params)])

Step == LET ev == Traces[tid].events[l + 1]
            r == Apply(ev)
            c == Clause(ev, r)
        IN /\ verdict = "ok" /\ l < Len(Traces[tid].events)
           /\ l' = l + 1 /\ tid' = tid
           /\ prims' = r.prims /\ cons' = r.cons
           /\ verdict' = c
           /\ c # "ok" => PrintT("@" \o ToJson([tid |-> tid, l |-> l + 1, clause |-> c, okspec |-> r.ok,
                  expected |-> [i \in DOMAIN r.cons |-> [key |-> r.cons[i].key, args |-> r.cons[i].args]]]))
           /\ (c = "ok" /\ ev.op = "eval") =>
                  PrintT("@" \o ToJson([tid |-> tid, l |-> l + 1, clause |-> "ok", value |-> Value]))
Spec == Init /\ [][Step]_vars
=============================================================================
