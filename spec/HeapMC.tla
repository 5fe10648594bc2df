------------------------------- MODULE HeapMC -------------------------------
(* Life cycle of the memory of the detectors: every sequence of at most      *)
(* Depth calls on Dets.  A caller may only initialise a detector that holds  *)
(* no block (never initialised, refused, or freed) and use one that was      *)
(* initialised.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Dets, Depth, Emit

VARIABLES heap,   \* live blocks: [id |-> .., owner |-> .., fam |-> ..]
          next,   \* next block
          ph,     \* phase: raw, empty (initialised, no block), live
          own,    \* block of a live detector
          freed,  \* blocks released so far
          fam,    \* registered allocators
          ops
vars == << heap, next, ph, own, freed, fam, ops >>

Init == /\ heap = {} /\ next = 1 /\ freed = << >> /\ fam = "A"
        /\ ph = [d \in Dets |-> "raw"] /\ own = [d \in Dets |-> 0] /\ ops = << >>

Log(op, d) == ops' = Append(ops, << op, d >>)

InitOk(d) == /\ ph[d] # "live" /\ fam \in {"A", "B"}
             /\ heap' = heap \cup {[id |-> next, owner |-> d, fam |-> fam]}
             /\ own' = [own EXCEPT ![d] = next] /\ next' = next + 1
             /\ ph' = [ph EXCEPT ![d] = "live"] /\ Log("init", d)
             /\ UNCHANGED << freed, fam >>
\* refused parameters: the structure is not touched
InitRefused(d) == /\ ph[d] # "live" /\ Log("initbad", d)
                  /\ UNCHANGED << heap, next, ph, own, freed, fam >>
\* no memory (allocator fails, is missing, or capacity not representable)
InitNoMem(d, how) == /\ ph[d] # "live"
                     /\ ph' = [ph EXCEPT ![d] = "empty"] /\ own' = [own EXCEPT ![d] = 0]
                     /\ Log(how, d) /\ UNCHANGED << heap, next, freed, fam >>
Use(op, d) == ph[d] = "live" /\ Log(op, d) /\ UNCHANGED << heap, next, ph, own, freed, fam >>
Free(d) == /\ ph[d] # "raw"
           /\ IF ph[d] = "live"
              THEN /\ heap' = { b \in heap : b.id # own[d] } /\ freed' = Append(freed, own[d])
              ELSE UNCHANGED << heap, freed >>
           /\ ph' = [ph EXCEPT ![d] = "empty"] /\ own' = [own EXCEPT ![d] = 0]
           /\ Log("free", d) /\ UNCHANGED << next, fam >>

\* the caller registers another pair of allocators (only when nothing is held,
\* otherwise the blocks would be released by the wrong family)
Swap == /\ heap = {} /\ fam' = (IF fam = "A" THEN "B" ELSE "A")
        /\ Log("swap", 0) /\ UNCHANGED << heap, next, ph, own, freed >>

Next == /\ Len(ops) < Depth
        /\ \/ \E d \in Dets : InitOk(d) \/ InitRefused(d) \/ Free(d)
           \/ \E d \in Dets, how \in {"initfail", "inithuge", "init0", "initnomalloc"} : InitNoMem(d, how)
           \/ \E d \in Dets, op \in {"fit", "fitbad", "steps"} : Use(op, d)
           \/ Swap
Spec == Init /\ [][Next]_vars

OneBlockEach == /\ Cardinality(heap) = Cardinality({ d \in Dets : ph[d] = "live" })
                /\ \A b \in heap : ph[b.owner] = "live" /\ own[b.owner] = b.id
FreedOnce == \A i, j \in 1..Len(freed) : i # j => freed[i] # freed[j]
NoDangling == \A d \in Dets : ph[d] # "live" => own[d] = 0
Conserved == next - 1 = Cardinality(heap) + Len(freed)
EmitScripts == Emit /\ Len(ops) = Depth => PrintT(<< "SCRIPT", ops >>)
=============================================================================
