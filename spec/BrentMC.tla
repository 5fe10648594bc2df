------------------------------- MODULE BrentMC -------------------------------
(* The root finder on every piecewise linear function through the nodes      *)
(* (0, v0) .. (K, vK), vi in Heights: the search keeps a bracket of the sign *)
(* change inside the interval, shrinks it, and stops.                        *)
EXTENDS Brent, TLC, Integers, Sequences

CONSTANTS Heights, K, Tol, Emit

VARIABLES f, st, evals
vars == << f, st, evals >>

Node(i) == FDec(f[i + 1])
PL(g, x) ==
  LET i0 == FTrunc(x)
      i == IF i0 < 0 THEN 0 ELSE IF i0 > K - 1 THEN K - 1 ELSE i0
      u == FDec(g[i + 1])
      v == FDec(g[i + 2])
  IN FAdd(u, FMul(FSub(x, FInt(i)), FSub(v, u)))
X1 == F0
X2 == FInt(K)

Init == /\ f \in [1..(K + 1) -> Heights]
        /\ st = BrentInit(X1, X2, PL(f, X1), PL(f, X2))
        /\ evals = 2
Next == /\ st.res = "run"
        /\ st' = BrentStep(LAMBDA x : PL(f, x), st, FDec(Tol))
        /\ evals' = IF st'.it > st.it THEN evals + 1 ELSE evals
        /\ UNCHANGED f
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inside == \A x \in {st.a, st.b, st.c} : FLe(X1, x) /\ FLe(x, X2)
\* one of the two current brackets [b, c], [a, b] contains a sign change
Bracketed == st.res = "run" => ~SameStrictSign(st.fb, st.fc) \/ ~SameStrictSign(st.fb, st.fa)
Bounded == evals <= BrentItMax + 2
Refused == st.res = "none" => SameStrictSign(PL(f, X1), PL(f, X2)) \/ st.it = BrentItMax
\* a reported root is within the tolerance of a sign change or zero
Root == st.res = "root" =>
  LET d == FAdd(FDec(Tol), FMul(FDec("1e-7"), FAbs(st.b)))
      lo == FMax(X1, FSub(st.b, d))
      hi == FMin(X2, FAdd(st.b, d))
  IN FEq(st.fb, F0) \/ ~SameStrictSign(PL(f, lo), PL(f, hi))
       \/ ~SameStrictSign(st.fb, PL(f, lo)) \/ ~SameStrictSign(st.fb, PL(f, hi))
Stops == <>(st.res # "run")
EmitScripts == Emit /\ evals = 2 /\ st.it = 0 /\ st.c = st.b => PrintT(<< "SCRIPT", f >>)
=============================================================================
