------------------------------- MODULE SpotMC -------------------------------
(* Exhaustive exploration of the specification of the detector: every        *)
(* sequence of at most Depth calls, over an alphabet of data placed around   *)
(* the thresholds in force, for both tails, both discard modes and the given *)
(* capacities.  The properties (Props) are invariants.  The sequences of     *)
(* calls are emitted (EmitScripts) and replayed in the real code.            *)
EXTENDS Props, Alphabet, TLC, Integers, Sequences

CONSTANTS Depth, Caps, StepOps, FitOps, QueryOps, Emit

VARIABLES st, pre, ev, obs, hist, ops

vars == << st, pre, ev, obs, hist, ops >>

InitEv(low, disc, cap) ==
  [k |-> "init", d |-> 0, q |-> MCq, level |-> MCLevel, low |-> low, disc |-> disc, cap |-> FInt(cap),
   ret |-> 0, mem |-> [ok |-> 1], amode |-> "A"]

Init ==
  \E low \in {0, 1}, disc \in {0, 1}, cap \in Caps :
    /\ st = SpotNew(MCq, low, disc, MCLevel, cap)
    /\ pre = NoState
    /\ ev = InitEv(low, disc, cap)
    /\ obs = Observe(st)
    /\ hist = EmptyHist
    /\ ops = << >>

Step(op) ==
  LET x == Datum(op, st)
      r == SpotStep(st, x)
      e == [k |-> "step", d |-> 0, x |-> x, ret |-> r.ret]
  IN /\ st' = r.st /\ pre' = obs /\ ev' = e /\ obs' = Observe(r.st)
     /\ hist' = HistNext(hist, obs, e, Observe(r.st))
     /\ ops' = Append(ops, op)

Fit(op) ==
  LET data == Batch(op, st.low)
      r == SpotFit(st, data)
      e == [k |-> "fit", d |-> 0, data |-> data, ret |-> r.ret]
  IN /\ st' = r.st /\ pre' = obs /\ ev' = e /\ obs' = Observe(r.st)
     /\ hist' = HistNext(hist, obs, e, Observe(r.st))
     /\ ops' = Append(ops, op)

Query(op) ==
  LET e == CASE op = "quant" -> LET r == FMul(FDec("0.25"), TailShare(st))
                                IN [k |-> "quant", d |-> 0, r |-> r, ret |-> SpotQuantile(st, r)]
             [] op = "quant0" -> [k |-> "quant", d |-> 0, r |-> F0, ret |-> SpotQuantile(st, F0)]
             [] op = "quantinf" -> [k |-> "quant", d |-> 0, r |-> FInf, ret |-> SpotQuantile(st, FInf)]
             [] op = "probnan" -> [k |-> "prob", d |-> 0, z |-> FNaN, ret |-> SpotProbability(st, FNaN)]
             [] op = "probinf" -> [k |-> "prob", d |-> 0, z |-> FInf, ret |-> SpotProbability(st, FInf)]
             [] op = "prob" -> LET z == AtA(st, FDec("0.75"))
                               IN [k |-> "prob", d |-> 0, z |-> z, ret |-> SpotProbability(st, z)]
  IN /\ pre' = obs /\ ev' = e /\ ops' = Append(ops, op)
     /\ UNCHANGED << st, obs, hist >>

Next ==
  /\ Len(ops) < Depth
  /\ \/ \E op \in StepOps : Step(op)
     \/ \E op \in FitOps : Fit(op)
     \/ \E op \in QueryOps : Query(op)

Spec == Init /\ [][Next]_vars

Judged == ev.k = "init" \/ Has(pre)
I01 == Judged => P01(pre, ev, obs, hist)
I02 == Judged => P02(pre, ev, obs, hist)
I03 == Judged => P03(pre, ev, obs, hist)
I04 == Judged => P04(pre, ev, obs, hist)
I05 == Judged => P05(pre, ev, obs, hist)
I06 == Judged => P06(pre, ev, obs, hist)
I07 == Judged => P07(pre, ev, obs, hist)
I08 == Judged => P08(pre, ev, obs, hist)
I10 == Judged => P10(pre, ev, obs, hist)
I20 == P20(pre, ev, obs, hist)

\* C18: the same calls with opposite data, on the other tail, lead to the
\* mirror image of the state (one direction is enough: low = 0)
MirrorOp(op) == IF op = "+inf" THEN "-inf" ELSE IF op = "-inf" THEN "+inf" ELSE op
Replay(low) ==
  FoldLeft(LAMBDA s, op : IF op \in QueryOps THEN s ELSE Apply(s, MirrorOp(op)).st,
           SpotNew(MCq, low, st.disc, MCLevel, st.pk.ring.cap), ops)
I18 == st.low = 0 =>
  LET m == Replay(1) IN
  /\ FSame(m.et, FNeg(st.et)) /\ FSame(m.zq, FNeg(st.zq))
  /\ FEq(m.n, st.n) /\ FEq(m.Nt, st.Nt) /\ FSame(m.g, st.g) /\ FSame(m.s, st.s)
  /\ FSameSeq(m.pk.ring.buf, st.pk.ring.buf)

\* the tree of the sequences of calls, read by the check from TLC's output
EmitScripts ==
  Emit /\ Len(ops) = Depth =>
    PrintT(<< "SCRIPT", obs.low, obs.disc, FTrunc(obs.cap), ops >>)
=============================================================================
