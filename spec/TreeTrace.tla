----------------------------- MODULE TreeTrace -----------------------------
(***************************************************************************)
(* C01/C02: recorded histories of real trees, checked against PathTree.     *)
(*                                                                         *)
(* A trace works on registers that each hold a tree.  After every call the   *)
(* driver logs the outcome and the listing of every register, so an          *)
(* operation that leaks into another register (a shallow copy, a shared      *)
(* child dictionary) is rejected as well.  Verdicts are total: a trace that   *)
(* is not a behaviour of the specification prints the first clause it breaks. *)
(***************************************************************************)
EXTENDS PathTree, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.DATA)

VARIABLES tid, l, regs, verdict
vars == <<tid, l, regs, verdict>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0
        /\ regs = Traces[tid].init
        /\ verdict = "ok"

\* Expected outcome of event e, as [ok, regs]
Apply(e) ==
    CASE e.op = "add" ->
           LET r == AddAt(regs[e.reg], e.path, e.sub)
           IN [ok |-> r.ok, regs |-> [regs EXCEPT ![e.reg] = r.tree]]
      [] e.op = "set" ->
           LET r == SetAt(regs[e.reg], e.path, e.sub)
           IN [ok |-> r.ok, regs |-> [regs EXCEPT ![e.reg] = r.tree]]
      [] e.op = "copy" ->
           [ok |-> TRUE, regs |-> [regs EXCEPT ![e.to] = regs[e.reg]]]
      [] e.op = "copysub" ->
           IF Has(regs[e.reg], e.path)
           THEN [ok |-> TRUE, regs |-> [regs EXCEPT ![e.to] = Get(regs[e.reg], e.path)]]
           ELSE [ok |-> FALSE, regs |-> regs]
      [] e.op = "roundtrip" ->
           [ok |-> TRUE, regs |-> [regs EXCEPT ![e.to] = Unflatten(Flatten(regs[e.reg])).tree]]
      [] e.op = "look" ->
           [ok |-> Has(regs[e.reg], e.path), regs |-> regs]

Clause(e, r) ==
    IF e.ok # r.ok THEN "outcome"
    ELSE IF e.op = "look" /\ e.contains # r.ok THEN "membership"
    ELSE IF e.op = "look" /\ r.ok /\ e.found # Get(regs[e.reg], e.path).id THEN "lookup"
    ELSE IF \E i \in DOMAIN r.regs : e.flats[i] # Flatten(r.regs[i]) THEN "listing"
    ELSE IF \E i \in DOMAIN r.regs : e.heights[i] # Height(r.regs[i]) THEN "height"
    ELSE "ok"

Step == LET e == Traces[tid].events[l + 1]
            r == Apply(e)
            c == Clause(e, r)
        IN /\ verdict = "ok" /\ l < Len(Traces[tid].events)
           /\ l' = l + 1 /\ tid' = tid
           /\ regs' = r.regs
           /\ verdict' = c
           /\ c # "ok" => PrintT("@" \o ToJson(
                [tid |-> tid, l |-> l + 1, clause |-> c, okspec |-> r.ok,
                 expected |-> [i \in DOMAIN r.regs |-> Flatten(r.regs[i])]]))

Spec == Init /\ [][Step]_vars
\* the trace runner must have consumed every event of every accepted trace
Consumed == TLCGet("stats").distinct > 0
=============================================================================
