------------------------------- MODULE BindMC -------------------------------
(* Life cycle of the objects of a binding (Python, JavaScript): every        *)
(* sequence of at most Depth operations on the objects Objs.  An object is   *)
(* absent, hollow (exists without a successful construction) or live; each   *)
(* live object holds the block of its detector, and in JavaScript each       *)
(* object also holds its structure.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Objs, Depth, Lang, Emit

VARIABLES ph, blocks, ops
vars == << ph, blocks, ops >>

Init == ph = [o \in Objs |-> "absent"] /\ blocks = 0 /\ ops = << >>
Log(op, o) == ops' = Append(ops, << op, o >>)
Own == IF Lang = "js" THEN 2 ELSE 1

New(o) == /\ ph[o] = "absent" /\ ph' = [ph EXCEPT ![o] = "live"]
          /\ blocks' = blocks + Own /\ Log("new", o)
\* a refused construction leaves no object behind (JavaScript: it is collected)
NewBad(o, how) == ph[o] = "absent" /\ Log(how, o) /\ UNCHANGED << ph, blocks >>
Hollow(o) == /\ Lang = "py" /\ ph[o] = "absent" /\ ph' = [ph EXCEPT ![o] = "hollow"]
             /\ Log("hollow", o) /\ UNCHANGED blocks
Reinit(o) == /\ Lang = "py" /\ ph[o] # "absent"
             /\ ph' = [ph EXCEPT ![o] = "live"]
             /\ blocks' = IF ph[o] = "live" THEN blocks ELSE blocks + 1
             /\ Log("reinit", o)
ReinitBad(o) == /\ Lang = "py" /\ ph[o] # "absent" /\ Log("reinitbad", o) /\ UNCHANGED << ph, blocks >>
Use(op, o) == ph[o] # "absent" /\ Log(op, o) /\ UNCHANGED << ph, blocks >>
Del(o) == /\ ph[o] # "absent" /\ ph' = [ph EXCEPT ![o] = "absent"]
          /\ blocks' = IF ph[o] = "live" THEN blocks - Own ELSE blocks
          /\ Log("del", o)

Next == /\ Len(ops) < Depth
        /\ \E o \in Objs :
             \/ New(o) \/ NewBad(o, "newbad") \/ NewBad(o, "newtype") \/ Hollow(o) \/ Reinit(o) \/ ReinitBad(o) \/ Del(o)
             \/ \E op \in {"fit", "fitshort", "fittype", "steps", "badargs"} : Use(op, o)
Spec == Init /\ [][Next]_vars

Held == blocks = Own * Cardinality({ o \in Objs : ph[o] = "live" })
EmitScripts == Emit /\ Len(ops) = Depth => PrintT(<< "SCRIPT", ops >>)
=============================================================================
