------------------------------- MODULE Brent -------------------------------
(* The root finder as a state machine: bracket [b, c], last iterate a, one   *)
(* evaluation of the function per step.  F(_) is the function, doubles are   *)
(* F64 values.                                                               *)
EXTENDS F64, Naturals, Sequences, SequencesExt

BrentEps == FDec("2.0e-8")
BrentItMax == 200
LOCAL F3 == FDec("3")

SameStrictSign(u, v) == (FPos(u) /\ FPos(v)) \/ (FLt(u, F0) /\ FLt(v, F0))

(* res: "run" while searching, "root" (the answer is b), "none" (no answer)  *)
BrentInit(x1, x2, f1, f2) ==
  [ a |-> x1, b |-> x2, c |-> x2, d |-> F0, e |-> F0,
    fa |-> f1, fb |-> f2, fc |-> f2, it |-> 0,
    res |-> IF SameStrictSign(f1, f2) THEN "none" ELSE "run" ]

BrentTol(b, tol) == FAdd(FMul(FMul(F2, BrentEps), FAbs(b)), FMul(FHalf, tol))

\* rename a, b, c so that [b, c] brackets the root and b is the best guess
BrentBracket(s) ==
  LET s1 == IF SameStrictSign(s.fb, s.fc)
            THEN LET w == FSub(s.b, s.a)
                 IN [s EXCEPT !.c = s.a, !.fc = s.fa, !.d = w, !.e = w]
            ELSE s
  IN IF FLt(FAbs(s1.fc), FAbs(s1.fb))
     THEN [s1 EXCEPT !.a = s1.b, !.b = s1.c, !.c = s1.b,
                     !.fa = s1.fb, !.fb = s1.fc, !.fc = s1.fb]
     ELSE s1

\* inverse quadratic interpolation (or secant): <<p, q>>, the step is p/q
BrentInterp(s, xm) ==
  LET sr == FDiv(s.fb, s.fa)
      pq == IF FEq(s.a, s.c)
            THEN << FMul(FMul(F2, xm), sr), FSub(F1, sr) >>
            ELSE LET q == FDiv(s.fa, s.fc)
                     r == FDiv(s.fb, s.fc)
                     p == FMul(sr, FSub(FMul(FMul(FMul(F2, xm), q), FSub(q, r)),
                                        FMul(FSub(s.b, s.a), FSub(r, F1))))
                 IN << p, FMul(FMul(FSub(q, F1), FSub(r, F1)), FSub(sr, F1)) >>
  IN << FAbs(pq[1]), IF FPos(pq[1]) THEN FNeg(pq[2]) ELSE pq[2] >>

BrentStep(F(_), st, tol) ==
  LET s  == BrentBracket(st)
      t1 == BrentTol(s.b, tol)
      xm == FMul(FHalf, FSub(s.c, s.b))
  IN IF st.res # "run" THEN st
     ELSE IF st.it >= BrentItMax THEN [st EXCEPT !.res = "none"]
     ELSE IF FLe(FAbs(xm), t1) \/ FEq(s.fb, F0) THEN [s EXCEPT !.res = "root"]
     ELSE
      LET tryI == FLe(t1, FAbs(s.e)) /\ FGt(FAbs(s.fa), FAbs(s.fb))
          pq   == BrentInterp(s, xm)
          min1 == FSub(FMul(FMul(F3, xm), pq[2]), FAbs(FMul(t1, pq[2])))
          min2 == FAbs(FMul(s.e, pq[2]))
          ok   == tryI /\ FLt(FMul(F2, pq[1]), IF FLt(min1, min2) THEN min1 ELSE min2)
          d    == IF ok THEN FDiv(pq[1], pq[2]) ELSE xm
          e    == IF ok THEN s.d ELSE xm
          b    == IF FGt(FAbs(d), t1) THEN FAdd(s.b, d)
                  ELSE IF FLe(F0, xm) THEN FAdd(s.b, t1) ELSE FSub(s.b, t1)
      IN [s EXCEPT !.a = s.b, !.fa = s.fb, !.d = d, !.e = e, !.b = b,
                   !.fb = F(b), !.it = st.it + 1]

LOCAL Steps == [i \in 1..(BrentItMax + 1) |-> i]

\* the whole search: [found |-> BOOLEAN, root |-> double]
BrentRun(F(_), x1, x2, tol) ==
  LET fin == FoldLeft(LAMBDA s, i : IF s.res = "run" THEN BrentStep(F, s, tol) ELSE s,
                      BrentInit(x1, x2, F(x1), F(x2)), Steps)
  IN [found |-> fin.res = "root", root |-> IF fin.res = "root" THEN fin.b ELSE F0]
=============================================================================
