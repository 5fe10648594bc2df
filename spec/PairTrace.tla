------------------------------ MODULE PairTrace ------------------------------
(* The same calls on two builds of the library (other compiler, optimisation *)
(* or run-time verification): each line holds the two recorded events.  The  *)
(* library is a function of the calls: the events are the same, and no build *)
(* ends with a crash, a report of its sanitizer, or a hang.                  *)
EXTENDS Json, IOUtils, TLC, Integers, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, ev
vars == << l, ev >>

Starts == { i \in 1..Len(Trace) : Trace[i].k = "new" }
TInit == l \in Starts /\ ev = Trace[l]
TNext == /\ l < Len(Trace) /\ Trace[l + 1].k # "new"
         /\ l' = l + 1 /\ ev' = Trace[l + 1]
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)

Ends == {"crash", "none"}
NoCrash(e) == e.k \notin Ends
Portable == ev.k = "pair" => NoCrash(ev.a) /\ NoCrash(ev.b) /\ ev.a = ev.b
==============================================================================
