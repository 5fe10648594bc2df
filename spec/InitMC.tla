------------------------------- MODULE InitMC -------------------------------
(* Initialisation over a grid of parameters around the bounds, allocator     *)
(* conditions and previous contents of the memory.  Two successive           *)
(* initialisations of the same detector (the first one released if needed).  *)
EXTENDS Props, TLC, Integers, Sequences

CONSTANTS LevelNames, QNames, CapNames, Flags, Modes, Emit

Up(x) == FUp(x)
LevelVal(n) ==
  CASE n = "0-" -> FDown(F0) [] n = "1-" -> FDown(F1) [] n = "1+" -> FUp(F1)
    [] OTHER -> FDec(n)
\* q relative to 1 - level
QVal(n, level) ==
  CASE n = "B-" -> FDown(FSub(F1, level)) [] n = "B" -> FSub(F1, level) [] n = "B+" -> FUp(FSub(F1, level))
    [] n = "half" -> FMul(FHalf, FSub(F1, level))
    [] OTHER -> FDec(n)

VARIABLES par, ret, obs
vars == << par, ret, obs >>

\* modes: A, B allocators; 0 no malloc; N nothing; F no free; X failing malloc
MemOk(m, cap) == m \in {"A", "B", "F"} /\ FLt(cap, FDec("30000000"))

Init ==
  \E l \in LevelNames, qn \in QNames, c \in CapNames, fl \in Flags, m \in Modes :
    LET level == LevelVal(l)
        q == QVal(qn, level)
        cap == FDec(c)
    IN /\ par = [q |-> q, level |-> level, cap |-> c, low |-> fl[1], disc |-> fl[2], mode |-> m]
       /\ ret = InitRet(q, level, cap, MemOk(m, cap))
       /\ obs = IF ret \in {0, ErrMemory}
                THEN [SpotNew(q, fl[1], fl[2], level, 0) EXCEPT !.pk = cap]
                ELSE [none |-> TRUE]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Answers == ret \in {0, ErrMemory, ErrLevel, ErrQ}
Exactly == (ret = 0) <=>
  /\ FLe(F0, par.level) /\ FLt(par.level, F1) /\ FLt(F0, par.q) /\ FLt(par.q, FSub(F1, par.level))
  /\ FLe(F1, FDec(par.cap)) /\ MemOk(par.mode, FDec(par.cap))
Priority == /\ ret = ErrLevel <=> ~LevelOk(par.level)
            /\ ret = ErrQ => LevelOk(par.level)
            /\ ret = ErrMemory => LevelOk(par.level) /\ QOk(par.q, par.level)
Flagged == ret = 0 => obs.low \in {0, 1} /\ obs.disc \in {0, 1} /\ (obs.low = 0 <=> par.low = 0)
EmitScripts == Emit => PrintT(<< "SCRIPT", par.q, par.level, par.cap, par.low, par.disc, par.mode, ret >>)
FlagSet == { << 0, 0 >>, << 1, 1 >>, << 2, -1 >>, << -1, 256 >>, << 65536, 0 >>, << 0, 2147483647 >>, << -2147483647, 1 >> }
=============================================================================
