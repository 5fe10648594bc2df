------------------------------ MODULE BindTrace ------------------------------
(* Validation of runs of a binding next to the C library.  A line is one     *)
(* operation on an object of the binding (b: returned value, exception,      *)
(* exposed state) with, if it amounts to a call of the C library, the same   *)
(* call on a C detector (c: returned value and state).  live is the number   *)
(* of blocks of memory held by the binding after the operation.              *)
EXTENDS Props, Text, Json, IOUtils, TLC, Integers, Sequences, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lang == IOEnv.BIND_LANG

VARIABLES l, ev, pst, own
vars == << l, ev, pst, own >>

Starts == { i \in 1..Len(Trace) : Trace[i].k = "new" }
None == [d \in {} |-> 0]
TInit == l \in Starts /\ ev = Trace[l] /\ pst = None /\ own = {}

Put(f, k, v) == [d \in DOMAIN f \cup {k} |-> IF d = k THEN v ELSE f[d]]
Without(f, k) == [d \in DOMAIN f \ {k} |-> f[d]]

TNext ==
  /\ l < Len(Trace) /\ Trace[l + 1].k # "new"
  /\ l' = l + 1
  /\ ev' = Trace[l + 1]
  \* state exposed by the object before the next operation
  /\ pst' = IF ev.k # "op" THEN pst
            ELSE IF ev.op = "del" THEN Without(pst, ev.d)
            ELSE IF "st" \in DOMAIN ev.b THEN Put(pst, ev.d, ev.b.st) ELSE pst
  /\ own' = LET e == Trace[l + 1] IN
            IF e.k # "op" THEN own
            ELSE IF e.op = "init" /\ "c" \in DOMAIN e /\ e.c.ret = 0 THEN own \cup {e.d}
            ELSE IF e.op = "del" THEN own \ {e.d}
            ELSE own

TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").distinct = Len(Trace)
NoCrash == ev.k # "crash"

SameState(a, b) == \* fields exposed by both
  \A x \in DOMAIN a \cap DOMAIN b :
     CASE x \in {"low", "disc", "size", "al", "full"} -> a[x] = b[x]
       [] x = "win" -> FSameSeq(a.win, b.win)
       [] x \in {"mean", "var"} -> TRUE
       [] OTHER -> FSame(a[x], b[x])

LibError == IF Lang = "py" THEN "RuntimeError" ELSE "Error"
\* the library's message (known finding K1: none for the last code)
Message(code, msg) == msg = ErrorText(code) \/ (code = 1005 /\ msg = "")
Raised(b, code) == b.exc = LibError /\ Message(code, b.msg)

RetOk ==
  "c" \in DOMAIN ev =>
    CASE ev.op \in {"init", "fit"} ->
           IF ev.c.ret >= 0 THEN ev.b.exc = "" ELSE Raised(ev.b, -ev.c.ret)
      [] ev.op = "step" ->
           IF ev.c.ret >= 0 \/ Lang = "py" THEN ev.b.exc = "" /\ ev.b.ret = ev.c.ret
           ELSE Raised(ev.b, -ev.c.ret)
      [] ev.op \in {"quant", "prob"} -> ev.b.exc = "" /\ FSame(ev.b.ret, ev.c.ret)
      [] ev.op = "version" -> ev.b.exc = "" /\ ev.b.ret = IOEnv.SPOT_VERSION
      [] ev.op = "error" ->
           ev.b.exc = "" /\ IF IsErrorCode(ev.c.ret) THEN Message(ev.c.ret, ev.b.ret) ELSE ev.b.ret = ""
      [] ev.op = "dict" ->
           /\ ev.b.exc = "" /\ FSame(ev.b.cursor, ev.c.cursor) /\ FSame(ev.b.led, ev.c.led)
           /\ ev.b.filled = ev.c.filled /\ FSameSeq(ev.b.data, ev.c.data) /\ FSameSeq(ev.b.data2, ev.c.data)
      [] OTHER -> TRUE
StateOk == ("c" \in DOMAIN ev /\ "st" \in DOMAIN ev.b /\ "st" \in DOMAIN ev.c /\ ev.c.ret \in Int) =>
             (ev.op = "init" /\ ev.c.ret # 0) \/ SameState(ev.b.st, ev.c.st)
\* the same for queries, whose returned value is a double
QStateOk == (ev.op \in {"quant", "prob"} /\ "c" \in DOMAIN ev /\ "st" \in DOMAIN ev.b /\ "st" \in DOMAIN ev.c) =>
             SameState(ev.b.st, ev.c.st)
\* an operation that raises keeps the previous state of the object
KeepOk == (ev.b.exc # "" /\ "st" \in DOMAIN ev.b /\ ev.d \in DOMAIN pst /\ ~(ev.op = "fit" /\ "c" \in DOMAIN ev)) =>
             SameState(ev.b.st, pst[ev.d])
\* operations that never reach the library raise one of the expected exceptions
BadOk == ev.op = "bad" => \E i \in 1..Len(ev.allowed) : ev.b.exc = ev.allowed[i]
\* an object that has not been constructed may refuse, with a genuine exception
HollowOk == ev.op = "hollow" => ev.b.exc \in {"", "RuntimeError", "TypeError", "ValueError", "AttributeError"}
MemOk == ev.live >= 0 =>
           ev.live = (IF Lang = "js" THEN Cardinality(own) + ev.objs ELSE Cardinality(own))
\* temporary memory is released, the caller's data are not modified
TempOk == /\ "delta" \in DOMAIN ev => ev.delta = 0
          /\ (ev.op = "fit" /\ "ro" \in DOMAIN ev.b) => ev.b.ro = 1
\* counters of the interpreter at the end of a script (objects and references)
EndOk == ev.op = "end" => ev.leak = 0

Op == ev.k = "op"
Bind == NoCrash /\ (Op => RetOk /\ KeepOk /\ BadOk /\ HollowOk /\ MemOk /\ TempOk /\ EndOk
                         /\ (IF ev.op \in {"quant", "prob"} THEN QStateOk ELSE StateOk))
==============================================================================
