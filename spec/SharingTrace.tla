---------------------------- MODULE SharingTrace ----------------------------
(***************************************************************************)
(* C04: recorded histories of building, extracting and rebuilding geometry,     *)
(* checked against Sharing.  Registers hold geometries; every event logs the     *)
(* listing of all of them.                                                    *)
(***************************************************************************)
EXTENDS Sharing, Json, IOUtils

Traces == JsonDeserialize(IOEnv.DATA)
VARIABLES tid, l, regs, verdict
vars == <<tid, l, regs, verdict>>

Empty == [tree |-> [id |-> 0, kind |-> "N", ch |-> <<>>], val |-> <<>>]
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ verdict = "ok"
        /\ regs = [i \in 1..Traces[tid].regs |-> Empty]

Entry(e) == [p \in {e.entries[i].p : i \in DOMAIN e.entries} |->
                e.entries[CHOOSE i \in DOMAIN e.entries : e.entries[i].p = p].e + 1]
\* coordinates of the points an addition brings in; ids already known keep theirs
Merge(val, pts) ==
    LET ids == {pts[i].id : i \in DOMAIN pts} IN
    [i \in DOMAIN val \cup ids |-> IF i \in DOMAIN val THEN val[i] ELSE pts[CHOOSE k \in DOMAIN pts : pts[k].id = i].v]

Apply(e) ==
    CASE e.op = "add" -> LET r == AddAt(regs[e.reg].tree, e.path, e.sub)
                         IN [ok |-> r.ok, regs |-> [regs EXCEPT ![e.reg] = [tree |-> r.tree, val |-> Merge(@.val, e.points)]]]
      [] e.op = "poke" -> [ok |-> TRUE, regs |-> [regs EXCEPT ![e.reg].val[e.id] = e.v]]
      [] e.op = "extract" -> [ok |-> TRUE, regs |-> regs]
      [] e.op = "rebuild" -> [ok |-> TRUE, regs |-> [regs EXCEPT ![e.to] = Rebuild(regs[e.reg], Entry(e), e.new)]]

Clause(e, r) ==
    IF e.ok # r.ok THEN "outcome"
    ELSE IF e.op \in {"extract", "rebuild"} /\ ~EntriesOk(regs[e.reg], Entry(e), e.values) THEN "entries"
    ELSE IF \E i \in DOMAIN r.regs : e.lists[i] # Listing(r.regs[i]) THEN "listing"
    ELSE "ok"

Step == LET e == Traces[tid].events[l + 1] IN
        /\ verdict = "ok" /\ l < Len(Traces[tid].events)
        /\ l' = l + 1 /\ tid' = tid
        \* a rebuild from a wrong set of unknowns has no meaning
        /\ IF e.op = "rebuild" /\ ~EntriesOk(regs[e.reg], Entry(e), e.values)
           THEN regs' = regs /\ verdict' = "entries"
                /\ PrintT("@" \o ToJson([tid |-> tid, l |-> l + 1, clause |-> "entries", expected |-> Listing(regs[e.reg])]))
           ELSE LET r == Apply(e) c == Clause(e, r) IN
                /\ regs' = r.regs /\ verdict' = c
                /\ c # "ok" => PrintT("@" \o ToJson([tid |-> tid, l |-> l + 1, clause |-> c,
                        expected |-> [i \in DOMAIN r.regs |-> Listing(r.regs[i])]]))
Spec == Init /\ [][Step]_vars
=============================================================================
