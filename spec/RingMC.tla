------------------------------- MODULE RingMC -------------------------------
(* Every sequence of at most Depth pushes of the values Vals in containers   *)
(* of capacities Caps: the circular buffer with incremental statistics (Ring)*)
(* refines "the last cap values, statistics recomputed from scratch".        *)
EXTENDS Props, TLC, Integers, Sequences

CONSTANTS Depth, Caps, Vals, Emit

VARIABLES p, win, evict, ops
vars == << p, win, evict, ops >>

Init == \E c \in Caps : p = PeaksEmpty(c) /\ win = << >> /\ evict = FNaN /\ ops = << >>

Push(v) ==
  LET x == FDec(v) IN
  /\ evict' = IF Len(win) = p.ring.cap THEN win[1] ELSE evict
  /\ p' = PeaksPush(p, x)
  /\ win' = LastN(Append(win, x), p.ring.cap)
  /\ ops' = Append(ops, v)

Next == Len(ops) < Depth /\ \E v \in Vals : Push(v)
Spec == Init /\ [][Next]_vars

Content == RingSize(p.ring) = Len(win) /\ FSameSeq(FSort(p.ring.buf), FSort(win))
Evicted == FSame(p.ring.erased, evict)
Stats == StatsOf(win, [size |-> RingSize(p.ring), e |-> p.e, e2 |-> p.e2, mn |-> p.mn, mx |-> p.mx])
EmitScripts == Emit /\ Len(ops) = Depth => PrintT(<< "SCRIPT", p.ring.cap, ops >>)
=============================================================================
