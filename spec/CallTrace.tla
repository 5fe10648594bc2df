------------------------------ MODULE CallTrace ------------------------------
(* Validation of the recorded calls of the building blocks: bounded          *)
(* container, statistics, estimators, closed forms, streaming quantile, math *)
(* kernel, text functions, root finder.  Each line is one call; the          *)
(* containers are the only stateful objects (win, cap, evict).               *)
EXTENDS Props, Text, Json, IOUtils, TLC, Integers, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, ev, prev, win, cap, evict, fl, ff,
          fu  \* calls before the first futils (a), futils so far (u)

vars == << l, ev, prev, win, cap, evict, fl, ff, fu >>

Starts == { i \in 1..Len(Trace) : Trace[i].k = "new" }

TInit ==
  /\ l \in Starts
  /\ ev = Trace[l] /\ prev = [k |-> "none"]
  /\ win = << >> /\ cap = 0 /\ evict = FNaN
  /\ fu = [a |-> 0, u |-> 0]
  /\ fl = FALSE /\ ff = FALSE    \* are user ldexp / frexp registered

Arith(e) == [i \in 1..e.cnt |-> FAdd(e.v0, FMul(FInt(i - 1), e.dv))]

TNext ==
  /\ l < Len(Trace) /\ Trace[l + 1].k # "new"
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     /\ ev' = e /\ prev' = ev
     /\ CASE e.k \in {"uinit", "pinit"} ->
               win' = << >> /\ cap' = FTrunc(e.cap) /\ evict' = FNaN
          [] e.k \in {"upush", "ppush"} ->
               /\ win' = LastN(Append(win, e.x), cap) /\ cap' = cap
               /\ evict' = IF Len(win) = cap THEN win[1] ELSE evict
          [] e.k = "pbulk" ->
               win' = LastN(win \o Arith(e), cap) /\ cap' = cap /\ evict' = FNaN
          [] OTHER -> UNCHANGED << win, cap, evict >>
     /\ fl' = IF e.k = "futils" THEN fl \/ e.l = 1 ELSE fl
     /\ fu' = IF e.k = "futils" THEN [fu EXCEPT !.u = @ + 1]
              ELSE IF fu.u = 0 THEN [fu EXCEPT !.a = @ + 1] ELSE fu
     /\ ff' = IF e.k = "futils" THEN ff \/ e.f = 1 ELSE ff

TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
NoCrash == ev.k # "crash"
Memory == "mem" \in DOMAIN ev => ev.mem.bad = 0 /\ ev.mem.guard = 1 /\ ev.mem.direct = 0

(* ---------------- C04: the bounded container ----------------------------- *)
U04 ==
  CASE ev.k = "uinit" -> ev.ret = 0 /\ ev.size = 0
    [] ev.k = "upush" -> /\ ev.size = Len(win) /\ FSameSeq(ev.win, FSort(win))
                         /\ FSame(ev.ret, evict)
    [] ev.k \in {"ppush", "pbulk"} -> ev.size = Len(win) /\ (ev.full = 1 => FSameSeq(ev.win, FSort(win)))
    [] OTHER -> TRUE

(* ---------------- C05: its statistics ------------------------------------ *)
U05 == ev.k \in {"pinit", "ppush", "pbulk"} /\ ev.full = 1 => StatsOf(ev.win, ev)

(* ---------------- C07: closed forms -------------------------------------- *)
\* g, s, p, a range over the domain: s > 0, 0 < p <= 1
U07 ==
  CASE ev.k = "tq" -> ev.pure = 1 /\ (FPos(ev.a) /\ FLe(ev.a, ev.p) => QuantOk(0, ev.g, ev.s, ev.p, ev.a, F0, ev.ret))
    [] ev.k = "tp" -> ev.pure = 1 /\ (FLe(F0, ev.a) => ProbOk(ev.g, ev.s, ev.p, ev.a, ev.ret))
    [] OTHER -> TRUE
\* along a grid (same model, increasing argument): monotone
M07 ==
  ev.k \in {"tq", "tp"} /\ prev.k = ev.k
     /\ FEq(prev.g, ev.g) /\ FEq(prev.s, ev.s) /\ FEq(prev.p, ev.p) /\ FLt(prev.a, ev.a)
     /\ FIsFin(ev.ret) /\ FIsFin(prev.ret) =>
        IF ev.k = "tq"
        THEN (FPos(prev.a) /\ FLe(ev.a, ev.p)) =>
               FLe(ev.ret, FAdd(prev.ret, FMul(F2, QuantTol(ev.g, ev.s, ev.p, prev.a, F0))))
        ELSE FLe(F0, prev.a) =>
               LET t == FMul(F2, FAdd(ProbTol(ev.g, ev.s, ev.a), ProbTol(ev.g, ev.s, prev.a))) IN
               FEq(ev.ret, F0) \/ ~FLt(t, FDec("0.1")) \/ FLe(ev.ret, FMul(prev.ret, FAdd(F1, t)))

(* ---------------- C08: estimators ---------------------------------------- *)
\* clearly outside of the domain of the likelihood
OutOfSupport(w, g, s) ==
  ~FPos(s) \/ \E i \in 1..Len(w) : FLt(FAdd(F1, FMul(FDiv(g, s), w[i])), FDec("-1e-9"))
LikOk(w, g, s, ret) ==
  Regular(w) =>
    IF ~FIsFin(g) \/ ~FIsFin(s) THEN ~FIsFin(ret)
    ELSE IF WellPosed(w, g, s) THEN FNear(ret, LogLik(w, g, s), LLTol(w, g, LogLik(w, g, s)))
    ELSE OutOfSupport(w, g, s) => ~FIsFin(ret)
MomOk(w, g, s) == Regular(w) => IsMom(w, g, s)
\* what the Grimshaw estimator must reach
GrimOk(w, g, s) ==
  Regular(w) =>
    /\ FIsFin(g) /\ FIsFin(s) /\ NearSupport(w, g, s)
    /\ FGt(Margin(w, g, s), FDec("1e-4")) =>
         /\ IsCand(w, g, s, FALSE)
         /\ AtLeast(w, g, s, ExpCand(w))
         /\ \A c \in GrimCands(w) : WellPosed(w, c[1], c[2]) => AtLeast(w, g, s, c)
\* a sample made of one value with few digits: its variance is exactly zero,
\* the moments are ill-defined and the exponential model wins
OneValue(w) ==
  /\ Len(w) > 0 /\ \A i \in 1..Len(w) : FEq(w[i], w[1])
  /\ \E k \in 1..64 : FEq(FMul(w[1], FDec("4")), FInt(k))
Plain(w, g, s) == OneValue(w) => FNear(g, F0, FDec("1e-6")) /\ FRel(s, w[1], FDec("1e-5"))
U08 ==
  CASE ev.k = "est" ->
         /\ Plain(ev.win, ev.gg, ev.gs)
         /\ Plain(ev.win, ev.tg, ev.ts)
         /\ LikOk(ev.win, ev.mg, ev.ms, ev.ml)
         /\ LikOk(ev.win, ev.gg, ev.gs, ev.gl)
         /\ LikOk(ev.win, ev.tg, ev.ts, ev.tl)
         /\ LikOk(ev.win, ev.tg, ev.ts, ev.ll)
         /\ MomOk(ev.win, ev.mg, ev.ms)
         /\ GrimOk(ev.win, ev.gg, ev.gs)
         /\ BestModel(ev.win, ev.tg, ev.ts)
    [] ev.k = "loglik" -> LikOk(ev.win, ev.g, ev.s, ev.ret)
    [] OTHER -> TRUE

(* ---------------- C09: streaming quantile -------------------------------- *)
AllFinite(s) == \A i \in 1..Len(s) : FIsFin(s[i])
Distinct(s) == LET t == FSort(s) IN \A i \in 1..(Len(s) - 1) : FLt(t[i], t[i + 1])
Span(s) == FSub(MaxSeq(s), MinSeq(s))
RankBelow(s, x) == FDiv(FInt(Len(SelectSeq(s, LAMBDA y : FLe(y, x)))), FInt(Len(s)))
U09(v) ==
  ev.k = "p2" /\ AllFinite(ev.data) =>
    IF Len(ev.data) < 5 THEN FIsNaN(ev.ret)
    ELSE LET slack == FMul(FDec("1e-12"), FMax(Span(ev.data), FMax(FAbs(MinSeq(ev.data)), FAbs(MaxSeq(ev.data))))) IN
      /\ FLe(FSub(MinSeq(ev.data), slack), ev.ret) /\ FLe(ev.ret, FAdd(MaxSeq(ev.data), slack))
      /\ Len(ev.data) = 5 => FEq(ev.ret, FSort(ev.data)[3])
      /\ P2Is(v, ev.ret, ev.p, ev.data, FAdd(slack, FMul(FDec("1e-9"), Span(ev.data))))
\* two consecutive calls on proportional batches (power of two): proportional
Scaled(a, b) == /\ Len(a) = Len(b) /\ Len(a) > 5
                /\ FPos(FAbs(b[1]))
                /\ LET r == FDiv(a[1], b[1]) IN FPos(r) /\ FSameSeq(a, [i \in 1..Len(b) |-> FMul(r, b[i])])
E09 ==
  ev.k = "p2" /\ prev.k = "p2" /\ FEq(ev.p, prev.p) /\ Scaled(ev.data, prev.data) =>
    FRel(ev.ret, FMul(FDiv(ev.data[1], prev.data[1]), prev.ret), FDec("1e-9"))
\* on a large batch in random order, the share of data below is close to p
R09 ==
  ev.k = "p2" /\ AllFinite(ev.data) /\ Len(ev.data) >= 500 /\ Distinct(ev.data) =>
    FNear(RankBelow(ev.data, ev.ret), ev.p, FDec("0.08"))

\* known finding K2: the monotone batch is never learned
K09 == R09 \/ FEq(ev.ret, F2)

(* ---------------- C13: math kernel --------------------------------------- *)
Tiny == FDec("2.2250738585072014e-308")
Normal(x) == FIsFin(x) /\ FLe(Tiny, FAbs(x))
MathOk(f, a, b, r) ==
  CASE f = "exp" ->
         IF FIsNaN(a) THEN FIsNaN(r)
         ELSE LET x == FExp(a) IN
              IF FLt(FDec("709.78271289"), a) /\ FLt(a, FDec("709.7827129")) THEN FGt(r, FDec("1e308"))
              ELSE IF ~FIsFin(x) THEN FEq(r, FInf)
              ELSE IF Normal(x) THEN FRel(r, x, FDec("1e-10"))
              ELSE FLe(F0, r) /\ FLe(r, FMul(FDec("1.0001"), Tiny))
    [] f = "log" ->
         IF FIsNaN(a) \/ FLt(a, F0) THEN FIsNaN(r)
         ELSE IF FEq(a, F0) THEN FEq(r, FNInf)
         ELSE IF FEq(a, FInf) THEN FEq(r, FInf)
         ELSE FNear(r, FLog(a), FMul(FDec("1e-10"), FAdd(F1, FAbs(FLog(a)))))
    [] f = "pow" ->
         IF FIsNaN(a) \/ FIsNaN(b) \/ FLt(a, F0) THEN FIsNaN(r)
         ELSE IF ~(FPos(a) /\ FIsFin(a) /\ FIsFin(b)) THEN TRUE
         ELSE LET x == FPow(a, b)
                  y == FMul(b, FLog(a))
                  t == FAdd(FDec("1e-11"), FMul(FAbs(b), LogErr(a))) IN
              IF FGt(y, FDec("710")) THEN FEq(r, FInf)
              ELSE IF FLt(y, FDec("-708")) THEN FLe(F0, r) /\ FLe(r, FDec("1e-307"))
              ELSE IF FLt(t, FDec("0.01")) THEN FRel(r, x, FMul(F2, t)) ELSE FLe(F0, r)
    [] f = "min" -> FSame(r, FMin(a, b))
    [] f = "nan" -> FEq(r, IF FIsNaN(a) THEN F1 ELSE F0)
    [] f = "logexp" -> FIsFin(a) /\ FLt(FAbs(a), FDec("700")) => FNear(r, a, FMul(FDec("2e-10"), FAdd(F1, FAbs(a))))
    [] f = "explog" -> Normal(a) /\ FPos(a) /\ FLt(a, FDec("1.797692e308")) => FRel(r, a, FMul(FDec("2e-10"), FAdd(F1, FAbs(FLog(a)))))
U13 == ev.k = "math" => MathOk(ev.fn, ev.a, ev.b, ev.r)
\* increasing, on a grid
M13 ==
  ev.k = "math" /\ prev.k = "math" /\ ev.fn = prev.fn /\ ev.fn \in {"exp", "log"}
    /\ FLt(prev.a, ev.a) /\ FIsFin(ev.r) /\ FIsFin(prev.r) =>
      FLe(prev.r, FAdd(ev.r, FMul(FDec("2e-10"), FAdd(FAbs(ev.r), IF ev.fn = "log" THEN F1 ELSE F0))))
\* once registered, the user functions are the ones in use
F13 ==
  ev.k = "math" =>
    /\ ev.fn = "exp" /\ FLt(F1, ev.a) /\ FLt(ev.a, FDec("700")) => (fl <=> ev.cl > 0)
    /\ ev.fn = "log" /\ FLt(F2, ev.a) /\ FIsFin(ev.a) => (ff <=> ev.cf > 0)

(* ---------------- C14: text ---------------------------------------------- *)
TheText(e) == IF e.what = "version" THEN Bytes(IOEnv.SPOT_VERSION)
              ELSE IF e.what = "license" THEN Bytes(LicenseText)
              ELSE Bytes(ErrorText(e.code))
TextOk(e) ==
  /\ e.guard = 1
  /\ e.null = 0 =>
       LET txt == TheText(e)
       IN IF e.what = "error" /\ ~IsErrorCode(e.code) THEN Untouched(e.bytes, e.old)
          ELSE e.bytes = Copied(txt, e.size)
\* known finding K1: nothing is written for the last error code
K1(e) == e.what = "error" /\ e.code = 1005 /\ e.null = 0 /\ e.size > 0
\* a buffer of more than 4 GiB: its beginning and its end
BigOk(e) == e.bytes = Copied(TheText(e), Len(e.bytes)) /\ \A i \in 1..Len(e.last) : e.last[i] = 0
U14 == /\ ev.k = "text" => TextOk(ev) \/ (K1(ev) /\ ev.guard = 1 /\ Untouched(ev.bytes, ev.old))
       /\ ev.k = "bigtext" => BigOk(ev)
S14 == ev.k = "text" => TextOk(ev)

(* ---------------- C17: root finder --------------------------------------- *)
Between(x, a, b) == FLe(FMin(a, b), x) /\ FLe(x, FMax(a, b))
OppositeOrZero(u, v) == (FLe(u, F0) /\ FLe(F0, v)) \/ (FLe(F0, u) /\ FLe(v, F0))
\* when no root is reported: would the specified search, on the values of the
\* function recorded along it, have found one?
RefRoot ==
  LET at(x) == LET I == { i \in 1..Len(ev.rev) : FEq(ev.rev[i], x) }
               IN IF I = {} THEN FNaN ELSE ev.rfv[CHOOSE i \in I : TRUE]
  IN BrentRun(at, ev.x1, ev.x2, ev.tol).found
U17 ==
  ev.k = "brent" =>
    LET bracket == OppositeOrZero(ev.f1, ev.f2)
        in == { i \in 1..Len(ev.ev) : Between(ev.ev[i], ev.wa, ev.wb) }
    IN /\ ev.found \in {0, 1}
       /\ ev.ctx = 1
       /\ ev.total <= 210
       /\ \A i \in 1..Len(ev.ev) : Between(ev.ev[i], ev.x1, ev.x2)
       /\ SameStrictSign(ev.f1, ev.f2) => ev.found = 0
       /\ bracket => (ev.found = 1 \/ (ev.total >= 200 /\ ~RefRoot))
       /\ ev.found = 1 =>
            /\ Between(ev.ret, ev.x1, ev.x2)
            /\ \/ FEq(ev.fr, F0)
               \/ OppositeOrZero(ev.fa, ev.fb)
               \/ \E i \in in : OppositeOrZero(ev.fv[i], ev.fr)

\* user functions with the semantics of the C library change no result: the
\* second half of the script repeats the first one with them
C13same ==
  NoCrash /\ (ev.k = "math" /\ fu.u > 0 =>
     LET t == Trace[l - fu.a - fu.u]
     IN t.fn = ev.fn /\ FSame(t.a, ev.a) /\ FSame(t.b, ev.b) /\ FSame(t.r, ev.r))
C08mem == NoCrash /\ Memory
C04 == NoCrash /\ Memory /\ U04
C05 == NoCrash /\ Memory /\ U05
C07 == NoCrash /\ U07 /\ M07
C08 == NoCrash /\ Memory /\ U08
C09lib == NoCrash /\ U09("lib") /\ E09
C09ties == NoCrash /\ U09("ties") /\ E09
C09canon == NoCrash /\ U09("canon") /\ E09
C09rank == NoCrash /\ R09
C09known == NoCrash /\ K09
C13 == NoCrash /\ U13 /\ M13
C13utils == NoCrash /\ F13
C14 == NoCrash /\ U14
C14strict == NoCrash /\ S14
C17 == NoCrash /\ U17
==============================================================================
