------------------------------ MODULE TwinTrace ------------------------------
(* Comparison of whole runs.  Detectors that must behave alike (interleaved  *)
(* or alone, before or after other detectors, refitted or fresh, mirrored,   *)
(* driven from C, Python or JavaScript) are recorded in one trace; a line    *)
(* "twin" names two of them and the relation between their runs.             *)
EXTENDS Props, Json, IOUtils, TLC, Integers, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, ev, logs

vars == << l, ev, logs >>
Starts == { i \in 1..Len(Trace) : Trace[i].k = "new" }
Empty == [d \in {} |-> << >>]

TInit == l \in Starts /\ ev = Trace[l] /\ logs = Empty

Calls == {"init", "fit", "step", "quant", "prob", "free", "get", "text"}

TNext ==
  /\ l < Len(Trace) /\ Trace[l + 1].k # "new"
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     /\ ev' = e
     /\ logs' = IF e.k = "mark"      \* forget what detector e.a did so far
                THEN [d \in DOMAIN logs \ {e.a} |-> logs[d]]
                ELSE IF e.k = "move"     \* the structure of detector e.a is now that of e.b
                THEN [d \in (DOMAIN logs \ {e.a}) \cup {e.b} |-> IF d = e.b THEN logs[e.a] ELSE logs[d]]
                ELSE IF e.k \in Calls
                THEN [d \in DOMAIN logs \cup {e.d} |->
                        IF d = e.d THEN Append(IF d \in DOMAIN logs THEN logs[d] ELSE << >>, e) ELSE logs[d]]
                ELSE logs

TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
NoCrash == ev.k # "crash"

(* ---------------- relations between two calls ---------------------------- *)
IsDouble(v) == v \in Seq(Int) /\ Len(v) = 2
Log(d) == IF d \in DOMAIN logs THEN logs[d] ELSE << >>

SameRet(e, f) == IF e.k \in {"quant", "prob"} THEN FSame(e.ret, f.ret)
                 ELSE IF e.k = "free" THEN TRUE ELSE e.ret = f.ret

\* identical answer and state
Same(e, f) == /\ e.k = f.k
              /\ SameRet(e, f)
              /\ ("st" \in DOMAIN e /\ e.k # "free") => SameObs(e.st, f.st)

\* opposite data: same verdicts and model, opposite thresholds and quantiles
Opp(x, y) == FSame(x, FNeg(y))
Close(x, y) == FRel(x, y, FDec("1e-9"))
Mirror(e, f) ==
  /\ e.k = f.k
  /\ CASE e.k \in {"init", "fit"} -> e.ret = f.ret
       [] e.k = "step" -> Opp(e.x, f.x) /\ e.ret = f.ret
       [] e.k = "quant" -> FSame(e.r, f.r) => Opp(e.ret, f.ret)
       [] e.k = "prob" -> Opp(e.z, f.z) => FSame(e.ret, f.ret)
       [] OTHER -> TRUE
  /\ (e.k # "free" /\ "st" \in DOMAIN e) =>
       /\ e.st.low # f.st.low /\ e.st.disc = f.st.disc
       /\ \A x \in {"n", "Nt", "g", "s", "e", "e2", "mn", "mx", "cap"} : SameField(e.st, f.st, x)
       /\ Opp(e.st.et, f.st.et) /\ Opp(e.st.zq, f.st.zq)
       /\ SameWin(e.st, f.st)

\* a binding: same answers, same observables as far as it exposes them
Exposed(o) == DOMAIN o
View(e, f) ==
  /\ e.k = f.k
  /\ CASE e.k \in {"quant", "prob"} -> FSame(e.ret, f.ret)
       [] e.k \in {"init", "fit", "step"} -> e.ret = f.ret
       [] e.k = "text" -> e.ret = f.ret
       [] OTHER -> TRUE
  /\ ("st" \in DOMAIN e /\ "st" \in DOMAIN f) =>
       \A x \in Exposed(e.st) \cap Exposed(f.st) :
          CASE x \in {"low", "disc", "size", "al", "full"} -> e.st[x] = f.st[x]
            [] x = "win" -> FSameSeq(e.st.win, f.st.win)
            [] OTHER -> FSame(e.st[x], f.st[x])

AllRelated(s, t, R(_, _)) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : R(s[i], t[i])

Accepts(e) == ~Rejected(e)

\* both runs were last fitted with opposite excess thresholds (they must be
\* for batches of five data, whose threshold is the median)
LastFit(s, i) == LET F == { j \in 1..i : s[j].k = "fit" /\ s[j].ret # ErrExcessNaN }
                 IN IF F = {} THEN 0 ELSE CHOOSE j \in F : \A k \in F : k <= j
Opposed(s, t, i) == LET j == LastFit(s, i) IN
                      j = 0 \/ Len(s[j].data) = 5 \/ (t[j].k = "fit" /\ Opp(s[j].st.et, t[j].st.et))
Mirrored(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Opposed(s, t, i) => Mirror(s[i], t[i])

TwinOk ==
  ev.k = "twin" =>
    LET a == Log(ev.a)
        b == Log(ev.b)
    IN CASE ev.rel = "same" -> AllRelated(a, b, Same)
         [] ev.rel = "dropped" -> AllRelated(SelectSeq(a, Accepts), b, Same)
         [] ev.rel = "mirror" -> Mirrored(a, b)
         [] ev.rel = "view" -> AllRelated(a, b, View)

Twin == NoCrash /\ TwinOk

\* for the report: first position where the runs differ
==============================================================================
