---------------------------- MODULE InterleaveMC ----------------------------
(* Independence: several detectors, each with its own program of symbolic    *)
(* calls, in every interleaving.  The state of a detector after its k-th     *)
(* call is the state it reaches when it runs alone.  All the interleavings   *)
(* are emitted and replayed in one process of the real code.                 *)
EXTENDS Alphabet, SequencesExt, TLC

CONSTANTS Progs, Emit

\* (constant substitutions of the configurations)
Progs2 == << << "fit5", "E1", "F", "T" >>, << "E2", "fit9", "NaN", "E1", "Z+1" >> >>
Progs2b == << << "fit9", "E2", "E1", "fitshort", "fit5", "M" >>, << "fitties", "E1", "fit5", "B", "T", "F" >> >>
Progs3 == << << "fit5", "E1", "Z+1" >>, << "fit9", "T" , "E2" >>, << "fitconst", "fit9", "M" >> >>

Dets == 1..Len(Progs)
VARIABLES pc, st, rets, sched
vars == << pc, st, rets, sched >>

\* detector d: both tails, different capacities
Fresh(d) == SpotNew(MCq, d % 2, 1, MCLevel, d + 1)
Init == /\ pc = [d \in Dets |-> 0] /\ sched = << >>
        /\ st = [d \in Dets |-> Fresh(d)] /\ rets = [d \in Dets |-> << >>]
Run(d) == /\ pc[d] < Len(Progs[d])
          /\ LET r == Apply(st[d], Progs[d][pc[d] + 1])
             IN st' = [st EXCEPT ![d] = r.st] /\ rets' = [rets EXCEPT ![d] = Append(@, r.ret)]
          /\ pc' = [pc EXCEPT ![d] = @ + 1] /\ sched' = Append(sched, d)
Next == \E d \in Dets : Run(d)
Spec == Init /\ [][Next]_vars

Solo(d, k) == FoldLeft(LAMBDA a, op : LET r == Apply(a.st, op) IN [st |-> r.st, rets |-> Append(a.rets, r.ret)],
                       [st |-> Fresh(d), rets |-> << >>], SubSeq(Progs[d], 1, k))
Independent == \A d \in Dets : Solo(d, pc[d]) = [st |-> st[d], rets |-> rets[d]]
Done == \A d \in Dets : pc[d] = Len(Progs[d])

\* a successful fit forgets the past: as a fresh detector fitted on the batch
Afresh == \A d \in Dets : pc[d] > 0 /\ Progs[d][pc[d]] \in FitNames /\ rets[d][pc[d]] = 0 =>
             st[d] = SpotFit(Fresh(d), Batch(Progs[d][pc[d]], d % 2)).st
EmitScripts == Emit /\ Done => PrintT(<< "SCRIPT", sched >>)
=============================================================================
