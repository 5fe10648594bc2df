------------------------------ MODULE SpotTrace ------------------------------
(* Validation of the traces recorded from the real library (harness/driver): *)
(* one line = one call, with its arguments, answer and resulting state.      *)
(* The specification follows the trace, keeps the history of each detector,  *)
(* and evaluates the properties at each call.                                *)
EXTENDS Props, Json, IOUtils, TLC, Integers, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* position in the trace
          ev,     \* last event
          pre,    \* state of its detector before
          obs,    \* observed states, by detector
          hist,   \* histories, by detector
          mem,    \* allocator counters before the event
          last,   \* obs before the event
          amode   \* registered allocators

vars == << l, ev, pre, obs, hist, mem, last, amode >>

Empty == [d \in {} |-> NoState]
NoMem == [m |-> 0, f |-> 0, live |-> 0, bad |-> 0, direct |-> 0, guard |-> 1, ok |-> -1, af |-> -1, ff |-> -1, sz |-> F0]
Set(f, k, v) == [d \in DOMAIN f \cup {k} |-> IF d = k THEN v ELSE f[d]]
Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default

\* one behaviour per script: a script starts at a line "new"
Starts == { i \in 1..Len(Trace) : Trace[i].k = "new" }

TInit ==
  /\ l \in Starts
  /\ ev = Trace[l] /\ pre = NoState
  /\ obs = Empty /\ hist = Empty /\ mem = NoMem /\ last = Empty /\ amode = "A"

TNext ==
  /\ l < Len(Trace) /\ Trace[l + 1].k # "new"
  /\ l' = l + 1
  /\ LET raw == Trace[l + 1]
         e == IF raw.k = "init" THEN [amode |-> amode] @@ raw ELSE raw IN
     /\ ev' = e
     /\ last' = obs
     /\ amode' = IF e.k = "alloc" THEN e.mode ELSE amode
     /\ mem' = IF "mem" \in DOMAIN ev THEN ev.mem ELSE mem
     /\ IF "st" \in DOMAIN e
        THEN LET p == Get(obs, e.d, NoState)
                 o == Set(obs, e.d, e.st)
                 h == Get(hist, e.d, EmptyHist)
             IN /\ pre' = p
                /\ obs' = IF "oth" \in DOMAIN e
                          THEN LET other(d) == SelectSeq(e.oth, LAMBDA x : x.d = d)
                               IN [d \in DOMAIN o |-> IF d # e.d /\ Len(other(d)) > 0 THEN other(d)[1].st ELSE o[d]]
                          ELSE o
                /\ hist' = Set(hist, e.d, HistNext(h, p, e, e.st))
        ELSE UNCHANGED << obs, hist >> /\ pre' = NoState

TSpec == TInit /\ [][TNext]_vars

Cur == Get(obs, ev.d, NoState)
CurH == Get(hist, ev.d, EmptyHist)
Judged == "st" \in DOMAIN ev /\ (ev.k = "init" \/ Has(pre))
\* a crash (signal, sanitizer report, hang) of the library is never allowed
NoCrash == ev.k # "crash"

C01 == NoCrash /\ (Judged => P01(pre, ev, Cur, CurH))
C02 == NoCrash /\ (Judged => P02(pre, ev, Cur, CurH))
\* a batch of millions of data: the driver counts those beyond the threshold
Huge03 ==
  ev.k = "hugefit" => ev.ret = 0 /\ FEq(Cur.n, ev.size) /\ FEq(Cur.Nt, ev.beyond)
C03 == NoCrash /\ (Judged => P03(pre, ev, Cur, CurH) /\ Huge03)
C04 == NoCrash /\ (Judged => P04(pre, ev, Cur, CurH))
C05 == NoCrash /\ (Judged => P05(pre, ev, Cur, CurH))
C06 == NoCrash /\ (Judged => P06(pre, ev, Cur, CurH))
C07 == NoCrash /\ (Judged => P07(pre, ev, Cur, CurH))
C08 == NoCrash /\ (Judged => P08(pre, ev, Cur, CurH))
C10 == NoCrash /\ ((Judged \/ ev.k = "init") => P10(pre, ev, Cur, CurH))

(* ---------------- C09: the threshold set by a fit -------------------------- *)
AllFinite(s) == \A i \in 1..Len(s) : FIsFin(s[i])
Distinct(s) == LET t == FSort(s) IN \A i \in 1..(Len(s) - 1) : FLt(t[i], t[i + 1])
P09(v) ==
  ev.k = "fit" /\ AllFinite(ev.data) =>
    IF Len(ev.data) < 5 THEN ev.ret = ErrExcessNaN
    ELSE LET lo == MinSeq(ev.data)
             hi == MaxSeq(ev.data)
             slack == FMul(FDec("1e-12"), FMax(FAbs(lo), FAbs(hi)))
         IN /\ ev.ret # ErrExcessNaN
            /\ FLe(FSub(lo, slack), Cur.et) /\ FLe(Cur.et, FAdd(hi, slack))
            /\ Len(ev.data) = 5 => FEq(Cur.et, FSort(ev.data)[3])
            /\ LET p == IF Cur.low = 1 THEN FSub(F1, Cur.level) ELSE Cur.level IN
               IF Len(ev.data) <= 2000
               THEN P2Is(v, Cur.et, p, ev.data, FAdd(slack, FMul(FDec("1e-9"), FSub(hi, lo))))
               \* (large batches are in random order) close to the quantile
               ELSE FNear(FDiv(FInt(Len(SelectSeq(ev.data, LAMBDA y : FLe(y, Cur.et)))), FInt(Len(ev.data))),
                          p, FDec("0.02"))
\* a batch of millions of independent data: the share beyond the threshold
Huge09 ==
  ev.k = "hugefit" =>
    /\ ev.ret = 0
    /\ FRel(FDiv(ev.beyond, ev.size), FSub(F1, Cur.level), FDec("0.1"))
C09lib == NoCrash /\ (Judged => P09("lib") /\ Huge09)
C09ties == NoCrash /\ (Judged => P09("ties") /\ Huge09)
C09canon == NoCrash /\ (Judged => P09("canon") /\ Huge09)

(* ---------------- C11: memory -------------------------------------------- *)
Family(m) == IF m \in {"A", "F"} THEN 0 ELSE IF m = "B" THEN 1 ELSE -1
HasMalloc(m) == m \in {"A", "B", "F"}
HasFree(m) == m \in {"A", "B", "0"}
FreeFamily(m) == IF m = "B" THEN 1 ELSE 0
Quiet(e) == e.mem.m = mem.m /\ e.mem.f = mem.f /\ e.mem.live = mem.live
Owned(st) == Has(st) /\ st.al = 1
P11 ==
  "mem" \in DOMAIN ev =>
    /\ ev.mem.bad = 0 /\ ev.mem.guard = 1 /\ ev.mem.direct = 0
    /\ CASE ev.k = "init" ->
              /\ ev.mem.f = mem.f
              /\ IF ev.ret = 0
                 THEN /\ ev.mem.m = mem.m + 1 /\ ev.mem.live = mem.live + 1
                      /\ FEq(ev.mem.sz, FMul(ev.cap, FDec("8")))
                      /\ ev.mem.af = Family(amode) /\ ev.st.al = 1
                 ELSE /\ ev.mem.live = mem.live
                      /\ ev.mem.m <= mem.m + (IF ev.ret = ErrMemory /\ HasMalloc(amode) THEN 1 ELSE 0)
                      /\ ev.ret = ErrMemory => ev.st.al = 0
                      /\ (HasMalloc(amode) /\ ev.mem.ok # 0 /\ CapOk(ev.cap) => ev.ret # ErrMemory)
         [] ev.k = "free" ->
              /\ ev.mem.m = mem.m
              /\ IF Owned(pre) /\ HasFree(amode)
                 THEN ev.mem.f = mem.f + 1 /\ ev.mem.live = mem.live - 1 /\ ev.mem.ff = FreeFamily(amode)
                 ELSE ev.mem.f = mem.f /\ ev.mem.live = mem.live
              /\ HasFree(amode) => ev.st.al = 0
              /\ ev.st.size = 0
         [] ev.k = "fit" -> Quiet(ev) /\ ev.ro = 1
         [] OTHER -> Quiet(ev)
C11 == NoCrash /\ (ev.k # "new" => P11)

(* ---------------- C12: the other detectors are not affected -------------- *)
\* (watch mode) every other detector is logged: it is as it was
P12 == "oth" \in DOMAIN ev =>
         \A i \in 1..Len(ev.oth) :
            ev.oth[i].d \in DOMAIN last => SameObs(ev.oth[i].st, last[ev.oth[i].d])
C12 == NoCrash /\ P12

(* ---------------- C19: calibration ---------------------------------------- *)
\* independent data of a regular distribution, anomalies kept in the model:
\* what lies beyond a threshold is what the detector announces (sampling error
\* of the thresholds included)
Within(x, ref, lo, hi) == FLe(FMul(FDec(lo), ref), x) /\ FLe(x, FMul(FDec(hi), ref))
RECURSIVE SumOf(_, _)
SumOf(f, n) == IF n = 0 THEN F0 ELSE FAdd(f[n], SumOf(f, n - 1))
MeanOf(f) == FDiv(SumOf(f, Len(f)), FInt(Len(f)))
\* one run: within sampling error of one stream
Run19(run, nstep) ==
  /\ run.ret = 0 /\ run.err = 0
  /\ Within(FDiv(run.beyond, nstep), Cur.q, "0.4", "2.5")
  /\ Within(FDiv(run.excess, nstep), FSub(F1, Cur.level), "0.3", "2.5")
  /\ \A i \in 1..Len(run.quants) :
       LET x == run.quants[i] IN
       /\ FRel(x.p, x.r, FDec("1e-6"))
       /\ CASE x.k = 0 -> Within(x.seen, x.r, "0.5", "2")
            [] x.k = 1 -> Within(x.seen, x.r, "0.3", "2.5")
            [] x.k = 2 -> Within(x.seen, x.r, "0.15", "4")
            [] OTHER -> Within(x.seen, x.r, "0.1", "5")
\* all the runs of a configuration together: no bias
P19 ==
  ev.k = "calib" =>
    LET R == ev.runs
        q(k) == MeanOf([i \in 1..Len(R) |-> FDiv(R[i].quants[k].seen, R[i].quants[k].r)])
        share(v) == FDiv(v, ev.nstep) IN
    /\ \A i \in 1..Len(R) : Run19(R[i], ev.nstep)
    /\ Within(TailShare(Cur), FSub(F1, Cur.level), "0.3", "2.5")
    /\ Len(R) >= 12 =>
         /\ Within(MeanOf([i \in 1..Len(R) |-> share(R[i].beyond)]), Cur.q, "0.82", "1.22")
         /\ Within(MeanOf([i \in 1..Len(R) |-> share(R[i].excess)]), FSub(F1, Cur.level), "0.75", "1.35")
         /\ Within(q(1), F1, "0.85", "1.18")
         /\ Within(q(2), F1, "0.75", "1.3")
         /\ Within(q(3), F1, "0.65", "1.45") /\ Within(q(4), F1, "0.45", "1.7")
C19 == NoCrash /\ (Judged => P19)

(* ---------------- C20: every call answers --------------------------------- *)
C20 == NoCrash /\ ("ret" \in DOMAIN ev => P20(pre, ev, Cur, CurH))

\* every line of the trace has been consumed
Accepted == TLCGet("stats").distinct = Len(Trace)
==============================================================================
