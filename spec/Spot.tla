-------------------------------- MODULE Spot --------------------------------
(* The detector: its state and one operator per call of the public API.      *)
(* Each operator maps a state (and the arguments of the call) to             *)
(* [st |-> next state, ret |-> returned value].                              *)
EXTENDS F64, Gpd, P2, Ring, Integers, Sequences, SequencesExt

(* ---------------- answers and errors ------------------------------------- *)
NORMAL == 0
EXCESS == 1
ANOMALY == 2
ErrMemory == -1000
ErrLevel == -1001
ErrQ == -1002
ErrExcessNaN == -1003
ErrAnomalyNaN == -1004
ErrDataNaN == -1005

(* ---------------- orientation of the tail -------------------------------- *)
\* signed distance of x beyond t, on the side of the tail
Beyond(low, x, t) == IF low = 1 THEN FSub(t, x) ELSE FSub(x, t)
\* the point at distance d of t on the side of the tail
Shift(low, t, d) == IF low = 1 THEN FSub(t, d) ELSE FAdd(t, d)

(* ---------------- parameters --------------------------------------------- *)
LevelOk(level) == FLe(F0, level) /\ FLt(level, F1)
QOk(q, level) == FPos(q) /\ FLt(q, FSub(F1, level))
\* largest number of doubles whose byte size is representable (2^61 - 1, rounded)
CapOk(cap) == FPos(cap) /\ FLt(cap, FDec("2305843009213693952"))
InitRet(q, level, cap, memOk) ==
  IF ~LevelOk(level) THEN ErrLevel
  ELSE IF ~QOk(q, level) THEN ErrQ
  ELSE IF ~CapOk(cap) \/ ~memOk THEN ErrMemory
  ELSE 0

(* ---------------- state -------------------------------------------------- *)
\* cap is a (small) natural number here
SpotNew(q, low, disc, level, cap) ==
  [ q |-> q, level |-> level,
    low |-> IF low # 0 THEN 1 ELSE 0, disc |-> IF disc # 0 THEN 1 ELSE 0,
    n |-> F0, Nt |-> F0, et |-> FNaN, zq |-> FNaN, g |-> FNaN, s |-> FNaN,
    pk |-> PeaksEmpty(cap) ]

(* ---------------- queries ------------------------------------------------ *)
TailShare(st) == FDiv(st.Nt, st.n)
SpotQuantile(st, r) == Shift(st.low, st.et, GpdQuantile(st.g, st.s, TailShare(st), r))
SpotProbability(st, z) == GpdTailProb(st.g, st.s, TailShare(st), Beyond(st.low, z, st.et))

(* ---------------- transitions -------------------------------------------- *)
Refit(st) ==
  LET m  == GpdFit(st.pk.ring.buf)
      s1 == [st EXCEPT !.g = m.g, !.s = m.s]
  IN [s1 EXCEPT !.zq = SpotQuantile(s1, s1.q)]

ExcessThreshold(st, data) ==
  P2Quantile(IF st.low = 1 THEN FSub(F1, st.level) ELSE st.level, data)

\* the excesses of a batch, in order
BatchExcesses(low, et, data) ==
  SelectSeq([i \in 1..Len(data) |-> Beyond(low, data[i], et)], FPos)

SpotFit(st, data) ==
  LET et == ExcessThreshold(st, data) IN
  IF FIsNaN(et) THEN [st |-> st, ret |-> ErrExcessNaN]
  ELSE LET ex == BatchExcesses(st.low, et, data)
           s1 == [st EXCEPT !.et = et, !.n = FInt(Len(data)), !.Nt = FInt(Len(ex)),
                            !.pk = FoldLeft(PeaksPush, PeaksEmpty(st.pk.ring.cap), ex)]
           s2 == Refit(s1)
       IN [st |-> s2, ret |-> IF FIsNaN(s2.zq) THEN ErrAnomalyNaN ELSE 0]

\* the answer to a datum, from the thresholds in force
Verdict(st, x) ==
  IF FIsNaN(x) THEN ErrDataNaN
  ELSE IF st.disc = 1 /\ FPos(Beyond(st.low, x, st.zq)) THEN ANOMALY
  ELSE IF FLe(F0, Beyond(st.low, x, st.et)) THEN EXCESS
  ELSE NORMAL

SpotStep(st, x) ==
  LET v == Verdict(st, x) IN
  [ ret |-> v,
    st |-> IF v = NORMAL THEN [st EXCEPT !.n = FAdd(st.n, F1)]
           ELSE IF v = EXCESS
           THEN Refit([st EXCEPT !.n = FAdd(st.n, F1), !.Nt = FAdd(st.Nt, F1),
                                 !.pk = PeaksPush(st.pk, Beyond(st.low, x, st.et))])
           ELSE st ]

(* ---------------- what an observer sees ---------------------------------- *)
Observe(st) ==
  [ al |-> 1, q |-> st.q, level |-> st.level, low |-> st.low, disc |-> st.disc,
    cap |-> FInt(st.pk.ring.cap), n |-> st.n, Nt |-> st.Nt, et |-> st.et, zq |-> st.zq,
    g |-> st.g, s |-> st.s, e |-> st.pk.e, e2 |-> st.pk.e2, mn |-> st.pk.mn, mx |-> st.pk.mx,
    size |-> RingSize(st.pk.ring), full |-> 1, win |-> FSort(st.pk.ring.buf) ]
=============================================================================
