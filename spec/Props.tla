-------------------------------- MODULE Props --------------------------------
(* The properties of a detector.  Each is a predicate over one call:         *)
(*   pre   the observable state before the call (NoState before any init)    *)
(*   ev    the call: kind k, arguments, returned value ret                   *)
(*   obs   the observable state after the call                               *)
(*   h     the history of the detector after the call: the excesses it must  *)
(*         hold, recomputed from the answers it gave since its last fit      *)
(* The same predicates are invariants of the specification (SpotMC) and of   *)
(* the traces recorded from the real code (SpotTrace).                       *)
EXTENDS Spot, Naturals, Sequences

NoState == [al |-> 0]
Has(st) == "q" \in DOMAIN st
DoubleFields == {"q", "level", "cap", "n", "Nt", "et", "zq", "g", "s", "e", "e2", "mn", "mx"}

SameField(a, b, f) == FSame(a[f], b[f])
SameWin(a, b) == a.size = b.size /\ (a.full = 1 /\ b.full = 1 => FSameSeq(a.win, b.win))
\* the two states cannot be distinguished
SameObs(a, b) ==
  /\ Has(a) /\ Has(b)
  /\ a.al = b.al /\ a.low = b.low /\ a.disc = b.disc
  /\ \A f \in DoubleFields : SameField(a, b, f)
  /\ SameWin(a, b)
\* only the counter of accepted data may differ
SameButN(a, b) ==
  /\ a.al = b.al /\ a.low = b.low /\ a.disc = b.disc
  /\ \A f \in DoubleFields \ {"n"} : SameField(a, b, f)
  /\ SameWin(a, b)

(* ---------------- history ------------------------------------------------ *)
EmptyHist == [win |-> << >>, fitted |-> FALSE]

LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Fitted(ev) == ev.k = "fit" /\ ev.ret \in {0, ErrAnomalyNaN}

Repeat(x, c) == [i \in 1..c |-> x]

HistNext(h, pre, ev, obs) ==
  CASE ev.k = "init" -> EmptyHist
    [] Fitted(ev) ->
         [win |-> LastN(BatchExcesses(obs.low, obs.et, ev.data), FTrunc(obs.cap)),
          fitted |-> ev.ret = 0]
    [] ev.k = "step" /\ ev.ret = EXCESS ->
         [h EXCEPT !.win = LastN(Append(h.win, Beyond(pre.low, ev.x, pre.et)), FTrunc(pre.cap))]
    [] ev.k = "bulk" ->
         LET c == FTrunc(FMin(ev.r1, pre.cap))
         IN [h EXCEPT !.win = LastN(h.win \o Repeat(Beyond(pre.low, ev.x, pre.et), c), FTrunc(pre.cap))]
    [] ev.k = "free" -> EmptyHist
    [] OTHER -> h

(* ---------------- C01: verdicts ------------------------------------------ *)
StrictlyBeyond(low, x, t) == IF low = 1 THEN FLt(x, t) ELSE FLt(t, x)
AtOrBeyond(low, x, t) == IF low = 1 THEN FLe(x, t) ELSE FLe(t, x)
ExpectedVerdict(st, x) ==
  IF FIsNaN(x) THEN ErrDataNaN
  ELSE IF st.disc # 0 /\ StrictlyBeyond(st.low, x, st.zq) THEN ANOMALY
  ELSE IF AtOrBeyond(st.low, x, st.et) THEN EXCESS
  ELSE NORMAL
\* (whether an infinite datum is beyond an infinite excess threshold is open)
Comparable(st, x) == FIsFin(st.et) \/ FIsNaN(st.et) \/ FIsFin(x) \/ FIsNaN(x)

P01(pre, ev, obs, h) ==
  ev.k = "step" /\ Comparable(pre, ev.x) => ev.ret = ExpectedVerdict(pre, ev.x)

(* ---------------- C02: rejected data ------------------------------------- *)
Rejected(ev) == \/ ev.k = "step" /\ (ev.ret = ANOMALY \/ ev.ret < 0)
                \/ ev.k = "fit" /\ ev.ret = ErrExcessNaN
P02(pre, ev, obs, h) == Rejected(ev) => SameObs(pre, obs)

(* ---------------- C03: counters ------------------------------------------ *)
P03(pre, ev, obs, h) ==
  CASE ev.k = "fit" /\ ev.ret \in {0, ErrAnomalyNaN} ->
         /\ FEq(obs.n, FInt(Len(ev.data)))
         /\ FEq(obs.Nt, FInt(Len(SelectSeq(ev.data, LAMBDA x : StrictlyBeyond(obs.low, x, obs.et)))))
    [] ev.k = "step" /\ ev.ret = NORMAL -> FEq(obs.n, FAdd(pre.n, F1)) /\ SameButN(pre, obs)
    [] ev.k = "step" /\ ev.ret = EXCESS -> FEq(obs.n, FAdd(pre.n, F1)) /\ FEq(obs.Nt, FAdd(pre.Nt, F1))
    [] ev.k = "bulk" -> /\ FEq(obs.n, FAdd(pre.n, FAdd(ev.r0, ev.r1)))
                        /\ FEq(obs.Nt, FAdd(pre.Nt, ev.r1))
    [] ev.k \in {"step", "quant", "prob", "fit"} -> FEq(obs.n, pre.n) /\ FEq(obs.Nt, pre.Nt)
    [] OTHER -> TRUE

(* ---------------- C04: stored excesses ----------------------------------- *)
P04(pre, ev, obs, h) ==
  ev.k \in {"init", "fit", "step", "bulk", "quant", "prob"} /\ obs.al = 1 =>
    /\ obs.size = Len(h.win)
    \* (no excess is defined beyond an infinite threshold)
    /\ obs.full = 1 /\ (FIsFin(obs.et) \/ FIsNaN(obs.et)) => FSameSeq(obs.win, FSort(h.win))

(* ---------------- C05: statistics ---------------------------------------- *)
StatTol(w, m) == \* rounding of at most a few times #w additions of terms <= m
  LET N == FInt(Len(w)) IN
  FAdd(FMul(m, FMul(N, FAdd(FDec("1e-12"), FMul(FMul(FDec("4"), FEps), N)))),
       FMul(N, FDec("1e-322")))  \* (and a few times the smallest double)
StatsOf(w, o) == \* o: a record with size, e, e2, mn, mx, mean, var
  LET hi == MaxSeq(w)
      lo == MinSeq(w)
      m == FMax(FAbs(hi), FAbs(lo))
      N == FInt(Len(w))
      S == FSum(w)
      Q == FSumSq(w)
      M == FDiv(S, N)
  IN /\ o.size = Len(w)
     /\ FSame(o.mn, lo) /\ FSame(o.mx, hi)
     /\ IF w = << >> THEN FEq(o.e, F0) /\ FEq(o.e2, F0)
        ELSE IF ~FIsFin(m) THEN FSame(o.e, S) /\ FSame(o.e2, Q)
        ELSE /\ FNear(o.e, S, StatTol(w, m))
             /\ ("mean" \in DOMAIN o => FNear(o.mean, M, FMul(F2, StatTol(w, m))))
             /\ FIsFin(Q) =>
                 /\ FNear(o.e2, Q, StatTol(w, FMul(m, m)))
                 /\ ("var" \in DOMAIN o =>
                       FNear(o.var, FSub(FDiv(Q, N), FMul(M, M)), FMul(FDec("8"), StatTol(w, FMul(m, m)))))
P05(pre, ev, obs, h) ==
  ev.k \in {"init", "fit", "step", "bulk", "quant", "prob"} /\ obs.al = 1 /\ obs.full = 1
    /\ (FIsFin(obs.et) \/ FIsNaN(obs.et)) =>
    StatsOf(obs.win, obs)

(* ---------------- C06, C07: thresholds and queries ----------------------- *)
GoodModel(st) == FIsFin(st.g) /\ FIsFin(st.s) /\ FPos(st.s)

\* accuracy of the logarithm kernel of the library (see C13)
\* (uniform: whether log u or -log 1/u is computed is not observable)
LogErr(u) == FAdd(FDec("2e-10"), FMul(FDec("1e-14"), FAbs(FLog(u))))

\* what a computation of the quantile in binary64 may lose
QuantTol(g, s, p, r, t) ==
  LET lr == FAbs(FLog(FDiv(r, p)))
      d == FAbs(GpdQuantile(g, s, p, r))
      A == FAbs(FDiv(s, g))
      P == FPow(FDiv(r, p), FNeg(g))
      le == LogErr(FDiv(r, p))
      k == FAdd(FDec("1e-12"), FMul(FAbs(g), le))
      base == FAdd(FAdd(FMul(FDec("1e-12"), FAdd(d, FMul(s, lr))), FMul(s, le)),
                   FMul(FDec("1e-15"), FAdd(FAbs(t), FAbs(s))))
  IN IF FEq(g, F0) THEN base
     ELSE FAdd(base, FMul(FMul(A, FAdd(F1, P)), k))

\* far from the ends of the range of the doubles, where the value of a formula
\* depends on the order of its operations
Tame(x) == FEq(x, F0) \/ (FLe(FDec("1e-100"), FAbs(x)) /\ FLe(FAbs(x), FDec("1e100")))
TameModel(g, s, p, r, t) ==
  Tame(g) /\ Tame(s) /\ Tame(FDiv(g, s)) /\ Tame(p) /\ Tame(FDiv(r, p)) /\ Tame(t)
Huge(x) == ~FLe(FAbs(x), FDec("1e100"))

QuantileIs(z, st, r) ==
  LET p == TailShare(st)
      x == SpotQuantile(st, r) IN
  TameModel(st.g, st.s, p, r, st.et) =>
    IF Huge(x) THEN FGt(FAbs(z), FDec("1e90")) ELSE FNear(z, x, QuantTol(st.g, st.s, p, r, st.et))
\* no model, no quantile
NoModel(st) == FIsNaN(st.g) \/ FIsNaN(st.s)

P06(pre, ev, obs, h) ==
  CASE ev.k = "fit" ->
         /\ ev.ret \in {0, ErrExcessNaN, ErrAnomalyNaN}
         /\ ev.ret = 0 => ~FIsNaN(obs.et) /\ ~FIsNaN(obs.zq)
         /\ ev.ret = ErrAnomalyNaN => ~FIsNaN(obs.et) /\ FIsNaN(obs.zq)
         /\ ev.ret = ErrExcessNaN => FSame(obs.zq, pre.zq) /\ FSame(obs.et, pre.et)
         /\ ev.ret # ErrExcessNaN /\ GoodModel(obs) /\ FPos(obs.Nt) => QuantileIs(obs.zq, obs, obs.q)
         /\ ev.ret # ErrExcessNaN /\ NoModel(obs) => FIsNaN(obs.zq)
    [] ev.k = "step" /\ ev.ret = EXCESS ->
         /\ FSame(obs.et, pre.et)
         /\ GoodModel(obs) => QuantileIs(obs.zq, obs, obs.q)
         /\ NoModel(obs) => FIsNaN(obs.zq)
    [] ev.k \in {"step", "quant", "prob"} -> FSame(obs.et, pre.et) /\ FSame(obs.zq, pre.zq)
    [] OTHER -> TRUE

\* what a computation of the probability in binary64 may lose (relative)
ProbTol(g, s, d) ==
  IF FEq(g, F0) THEN FMul(FDec("1e-12"), FAdd(F1, FDiv(FAbs(d), s)))
  ELSE LET r == FMul(d, FDiv(g, s))
           u == FAdd(F1, r)
           k == FAdd(FMul(FDec("1e-14"), FDiv(FAdd(F1, FAbs(r)), FAbs(u))), LogErr(FAbs(u)))
       IN FAdd(FDec("1e-12"), FDiv(k, FAbs(g)))

ProbOk(g, s, p, d, ret) ==
  LET r == FMul(d, FDiv(g, s))
      tol == ProbTol(g, s, d)
      x == GpdTailProb(g, s, p, d)
  IN Tame(g) /\ Tame(s) /\ Tame(d) /\ Tame(r) /\ Tame(p) =>
     /\ FLe(F0, ret) /\ FLe(ret, FMul(p, FDec("1.000000000001")))
     /\ FLt(g, F0) /\ FLe(r, FDec("-1.000000000001")) => FEq(ret, F0)
     /\ ~(FLt(g, F0) /\ FLe(r, FDec("-0.999999999999"))) /\ FLt(tol, FDec("0.1")) =>
           FNear(ret, x, FAdd(FMul(FMul(F2, tol), x), FDec("1e-300")))

QuantOk(low, g, s, p, r, t, ret) ==
  LET d == GpdQuantile(g, s, p, r)
      z == Shift(low, t, d)
      tol == QuantTol(g, s, p, r, t)
  IN TameModel(g, s, p, r, t) =>
       IF Huge(z) THEN FGt(FAbs(ret), FDec("1e90")) ELSE FNear(ret, z, tol) /\ FLe(FNeg(tol), Beyond(low, ret, t))

P07(pre, ev, obs, h) ==
  CASE ev.k = "quant" ->
         /\ SameObs(pre, obs)
         /\ (GoodModel(pre) /\ FIsFin(pre.et) /\ FPos(pre.Nt) /\ FPos(ev.r) /\ FLe(ev.r, TailShare(pre))) =>
               QuantOk(pre.low, pre.g, pre.s, TailShare(pre), ev.r, pre.et, ev.ret)
    [] ev.k = "prob" ->
         /\ SameObs(pre, obs)
         /\ LET d == Beyond(pre.low, ev.z, pre.et) IN
            (GoodModel(pre) /\ FIsFin(pre.et) /\ FPos(pre.Nt) /\ FLe(F0, d)) =>
               IF FIsFin(d) THEN ProbOk(pre.g, pre.s, TailShare(pre), d, ev.ret)
               ELSE ~FIsFin(ev.z) /\ Tame(pre.g) /\ Tame(pre.s) => FEq(ev.ret, F0)  \* nothing beyond infinity
    [] OTHER -> TRUE

(* ---------------- C08: the best candidate -------------------------------- *)
LLTol(w, g, l) ==
  FAdd(FMul(FDec("1e-7"), FAdd(F1, FAbs(l))),
       IF FEq(g, F0) THEN F0
       ELSE FMul(FMul(FInt(Len(w)), FAdd(F1, FDiv(F1, FAbs(g)))),
                 IF FLt(g, FDec("-0.1")) THEN FDec("2e-10") ELSE FDec("1e-14")))
\* how close the sample is to the end of the support
Margin(w, g, s) == FAdd(F1, FMul(FDiv(g, s), MaxSeq(w)))
\* the likelihood of the model on w can be trusted
WellPosed(w, g, s) ==
  FIsFin(g) /\ FIsFin(s) /\ InSupport(w, g, s) /\ FGt(Margin(w, g, s), FDec("1e-4"))
AtLeast(w, g, s, c) == \* (g, s) is at least as likely as the candidate c
  LET l == LogLik(w, g, s)
      lc == LogLik(w, c[1], c[2])
  IN FLe(lc, FAdd(l, FAdd(LLTol(w, g, l), LLTol(w, c[1], lc))))
\* the moment estimator is well conditioned
MomUsable(w) == FGt(FDiv(Var(w), FMul(Mean(w), Mean(w))), FDec("1e-6"))
Regular(w) == Len(w) > 0 /\ FIsFin(FSumSq(w)) /\ FPos(FSum(w)) /\ Tame(MaxSeq(w))
\* (g, s) is one of the candidates: the exponential model, the moments, or
\* the model attached to a root of the likelihood equation
IsExp(w, g, s) == FEq(g, F0) /\ FNear(s, Mean(w), FMul(FDec("1e-9"), Mean(w)))
IsMom(w, g, s) ==
  \/ ~MomUsable(w)
  \/ LET c == MomCand(w)
         R == FDiv(FMul(Mean(w), Mean(w)), Var(w))
         t == FMul(FMul(FDec("1e-9"), FAdd(F1, R)), FAdd(F1, R))
     IN FNear(g, c[1], t) /\ FNear(s, c[2], FMul(t, Mean(w)))
IsGrim(w, g, s) ==
  LET x == FDiv(g, s)
      d == FAdd(FMul(FDec("1e-6"), FAbs(x)), FDec("1e-7"))
      v == FDiv(FSum([i \in 1..Len(w) |-> FLog1p(FMul(x, w[i]))]), FInt(Len(w)))
  IN /\ ~FEq(g, F0)
     /\ FNear(g, v, FMul(FDec("1e-8"), FAdd(F1, FAbs(v))))
     /\ \/ FLt(FAbs(GrimW(w, x)), FDec("1e-7"))
        \/ ~SameStrictSign(GrimW(w, FSub(x, d)), GrimW(w, FAdd(x, d)))
IsCand(w, g, s, mom) ==
  \/ FGt(MaxSeq(w), FDec("1e5"))
  \/ IsExp(w, g, s) \/ (mom /\ IsMom(w, g, s)) \/ IsGrim(w, g, s)
BestModel(w, g, s) ==
  LET l == LogLik(w, g, s) IN
  Regular(w) =>
    \* the exponential model is always a valid candidate: the winner is valid
    /\ FIsFin(g) /\ FIsFin(s) /\ NearSupport(w, g, s)
    /\ FGt(Margin(w, g, s), FDec("1e-4")) =>
         /\ IsCand(w, g, s, TRUE)
         /\ AtLeast(w, g, s, ExpCand(w))
         /\ MomUsable(w) =>
              LET m == MomCand(w) IN WellPosed(w, m[1], m[2]) => AtLeast(w, g, s, m)
         /\ \A c \in GrimCands(w) : WellPosed(w, c[1], c[2]) => AtLeast(w, g, s, c)
P08(pre, ev, obs, h) ==
  (Fitted(ev) \/ (ev.k = "step" /\ ev.ret = EXCESS)) /\ obs.full = 1 =>
     BestModel(obs.win, obs.g, obs.s)

(* ---------------- C10: initialisation ------------------------------------ *)
\* memOk: did the allocator provide the block (TRUE if it was not called)
P10(pre, ev, obs, h) ==
  ev.k = "init" =>
    LET memOk == ev.mem.ok # 0 /\ ev.amode \in {"A", "B", "F"} IN
    /\ ev.ret = InitRet(ev.q, ev.level, ev.cap, memOk)
    /\ ev.ret \in {0, ErrMemory} =>
         /\ FSame(obs.q, ev.q) /\ FSame(obs.level, ev.level)
         /\ ev.ret = 0 => FSame(obs.cap, ev.cap)
         /\ obs.low = (IF ev.low # 0 THEN 1 ELSE 0)
         /\ obs.disc = (IF ev.disc # 0 THEN 1 ELSE 0)
         /\ FEq(obs.n, F0) /\ FEq(obs.Nt, F0)
         /\ FIsNaN(obs.et) /\ FIsNaN(obs.zq) /\ FIsNaN(obs.g) /\ FIsNaN(obs.s)
         /\ FEq(obs.e, F0) /\ FEq(obs.e2, F0) /\ FIsNaN(obs.mn) /\ FIsNaN(obs.mx)
         /\ obs.size = 0
         /\ obs.al = IF ev.ret = 0 THEN 1 ELSE 0

(* ---------------- C20: every call answers -------------------------------- *)
\* whatever the data: a documented answer, and a state that makes sense
P20(pre, ev, obs, h) ==
  /\ CASE ev.k = "init" -> ev.ret \in {0, ErrMemory, ErrLevel, ErrQ}
       [] ev.k = "fit" -> ev.ret \in {0, ErrExcessNaN, ErrAnomalyNaN}
       [] ev.k = "step" -> ev.ret \in {NORMAL, EXCESS, ANOMALY, ErrDataNaN}
       [] OTHER -> TRUE
  /\ Has(obs) /\ obs.al = 1 =>
       /\ FLe(FInt(obs.size), obs.cap)
       /\ FLe(F0, obs.Nt) /\ FLe(obs.Nt, obs.n)
       /\ obs.low \in {0, 1} /\ obs.disc \in {0, 1}
==============================================================================
