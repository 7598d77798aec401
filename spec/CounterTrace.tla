---------------------------- MODULE CounterTrace ----------------------------
(***************************************************************************)
(* Recorded histories of real item counters.  An event is                      *)
(*   add, until, nodes  cat, bad (names refused), got                           *)
(* and shows the categories that were asked for membership, those it was true    *)
(* and false for, and the counts: [category |-> number]                          *)
(***************************************************************************)
EXTENDS CounterMachine, IOUtils
Traces == JsonDeserialize(IOEnv.DATA)
VARIABLES tid, l, verdict
tvars == <<tid, l, verdict, counts, given, h>>

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ verdict = "ok" /\ Init
Range(s) == {s[i] : i \in DOMAIN s}
Clause(ev, n, new) ==
    IF ev.got # Name(ev.cat, n) THEN "counter-name"
    ELSE IF Range(ev.yes) # Range(ev.asked) \cap DOMAIN new
         \/ Range(ev.no) # Range(ev.asked) \ DOMAIN new THEN "counter-membership"
    ELSE IF DOMAIN ev.counts # DOMAIN new \/ \E c \in DOMAIN new : ev.counts[c] # new[c] THEN "counter-counts"
    ELSE "ok"
Step == LET ev == Traces[tid].events[l + 1]
            n == Number(counts, ev.cat, Range(ev.bad))
            new == Counted(counts, ev.cat, n)
            c == Clause(ev, n, new)
        IN /\ verdict = "ok" /\ l < Len(Traces[tid].events)
           /\ l' = l + 1 /\ counts' = new /\ verdict' = c
           /\ UNCHANGED <<tid, given, h>>
           /\ c # "ok" => PrintT("@" \o ToJson([tid |-> tid, l |-> l + 1, clause |-> c,
                                               expected |-> [name |-> Name(ev.cat, n), counts |-> new]]))
TSpec == TInit /\ [][Step]_tvars
=============================================================================
