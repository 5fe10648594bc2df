-------------------------------- MODULE Gpd --------------------------------
(* Generalized Pareto tail: survival, quantile, log-likelihood and the       *)
(* candidate models (moments, exponential, Grimshaw) of a sample.            *)
EXTENDS F64, Brent, Naturals, Sequences, SequencesExt

(* ---------------- closed forms ------------------------------------------ *)
\* excess d such that P(X - t > d) = r when P(X > t) = p
GpdQuantile(g, s, p, r) ==
  LET x == FLog(FDiv(r, p))
  IN IF FEq(g, F0) THEN FMul(FNeg(s), x)
     ELSE FMul(FDiv(s, g), FExpm1(FMul(FNeg(g), x)))

\* P(X - t > d) when P(X > t) = p
GpdTailProb(g, s, p, d) ==
  IF FEq(g, F0) THEN FMul(p, FExp(FDiv(FNeg(d), s)))
  ELSE LET r == FMul(d, FDiv(g, s))
       IN IF FLt(g, F0) /\ FLe(r, FNeg(F1)) THEN F0
          ELSE FMul(p, FExp(FDiv(FNeg(FLog1p(r)), g)))

(* ---------------- sample statistics -------------------------------------- *)
Mean(w) == FDiv(FSum(w), FInt(Len(w)))
Var(w) == LET m == Mean(w)
          IN FDiv(FSumSq([i \in 1..Len(w) |-> FSub(w[i], m)]), FInt(Len(w)))
MinSeq(w) == IF w = << >> THEN FNaN ELSE FoldLeft(FMin, w[1], w)
MaxSeq(w) == IF w = << >> THEN FNaN ELSE FoldLeft(FMax, w[1], w)

(* ---------------- log-likelihood ----------------------------------------- *)
LogLik(w, g, s) ==
  LET N == FInt(Len(w)) IN
  IF FEq(g, F0)
  THEN FSub(FMul(FNeg(N), FLog(s)), FDiv(FSum(w), s))
  ELSE LET x == FDiv(g, s)
           logs == FSum([i \in 1..Len(w) |-> FLog1p(FMul(x, w[i]))])
       IN FSub(FMul(FNeg(N), FLog(s)), FMul(FAdd(F1, FDiv(F1, g)), logs))

\* every point of the sample is in the support of the model
InSupport(w, g, s) ==
  /\ FPos(s)
  /\ \A i \in 1..Len(w) : FPos(FAdd(F1, FMul(FDiv(g, s), w[i])))

\* the same, up to rounding: a sample made of one value (up to rounding) is at the end of its best model
NearSupport(w, g, s) ==
  /\ FPos(s)
  /\ \A i \in 1..Len(w) : FGt(FAdd(F1, FMul(FDiv(g, s), w[i])), FDec("-1e-12"))

(* ---------------- candidates --------------------------------------------- *)
MomCand(w) ==
  LET E == Mean(w)
      R == FDiv(FMul(E, E), Var(w))
  IN << FMul(FHalf, FSub(F1, R)), FMul(FMul(FHalf, E), FAdd(F1, R)) >>

ExpCand(w) == << F0, Mean(w) >>

\* the likelihood equation: w(x) = 0
GrimW(w, x) ==
  LET N == FInt(Len(w))
      u == FSum([i \in 1..Len(w) |-> FDiv(F1, FAdd(F1, FMul(x, w[i])))])
      v == FSum([i \in 1..Len(w) |-> FLog1p(FMul(x, w[i]))])
  IN FSub(FMul(FDiv(u, N), FAdd(F1, FDiv(v, N))), F1)

GrimEps(w) == FMin(BrentEps, FDiv(FHalf, MaxSeq(w)))
GrimLeft(w) == << FAdd(FDiv(FNeg(F1), MaxSeq(w)), GrimEps(w)), FNeg(GrimEps(w)) >>
GrimRight(w) ==
  LET m == MinSeq(w)
  IN << GrimEps(w), FDiv(FMul(F2, FSub(Mean(w), m)), FMul(m, m)) >>

\* the model attached to a root x # 0 (the exponential one if gamma vanishes)
GrimCand(w, x) ==
  LET g == FDiv(FSum([i \in 1..Len(w) |-> FLog1p(FMul(x, w[i]))]), FInt(Len(w)))
  IN IF FLt(FAbs(g), BrentEps) THEN ExpCand(w) ELSE << g, FDiv(g, x) >>

\* an interval is usable: the sign of the equation at its ends is not only
\* made of rounding errors (the equation is of order (x e)^2 close to zero)
UsableBracket(w, I) ==
  /\ FIsFin(I[1]) /\ FIsFin(I[2])
  /\ LET f1 == GrimW(w, I[1])
         f2 == GrimW(w, I[2])
         ok(x, f) == FGt(FAbs(f), IF FLe(FAbs(x), BrentEps) THEN FDec("1e-12") ELSE FDec("1e-6"))
     IN ok(I[1], f1) /\ ok(I[2], f2) /\ ~SameStrictSign(f1, f2)

GrimRoot(w, I) == BrentRun(LAMBDA x : GrimW(w, x), I[1], I[2], BrentEps)

\* the Grimshaw candidates of the usable intervals (the absolute tolerance
\* of the search makes it rough on large excesses: what any point within the
\* tolerance of the root reaches)
GrimCands(w) ==
  LET use(I) == IF UsableBracket(w, I) THEN GrimRoot(w, I) ELSE [found |-> FALSE, root |-> F0]
      rough(r) ==
        LET d == FMul(FDec("3"), BrentEps)
            lo == GrimCand(w, FSub(r, d))
            hi == GrimCand(w, FAdd(r, d))
            sound == /\ FLt(d, FMul(FDec("0.5"), FAbs(r)))
                     /\ InSupport(w, lo[1], lo[2]) /\ InSupport(w, hi[1], hi[2])
        IN IF ~sound THEN {}
           ELSE {IF FLt(LogLik(w, lo[1], lo[2]), LogLik(w, hi[1], hi[2])) THEN lo ELSE hi}
      cand(r) == IF ~r.found \/ FEq(r.root, F0) THEN {}
                 ELSE IF FGt(MaxSeq(w), FDec("1e5")) THEN rough(r.root) ELSE {GrimCand(w, r.root)}
  IN IF FGt(MaxSeq(w), FDec("1e7")) THEN {}
     ELSE cand(use(GrimLeft(w))) \cup cand(use(GrimRight(w)))

(* The fit, as the library does it (used by the executable specification):   *)
(* argmax over moments and Grimshaw (exponential, left, right) candidates.   *)
Better(w, best, c) ==
  LET l == LogLik(w, c[1], c[2]) IN
  IF FIsNaN(best.ll) \/ FGt(l, best.ll) THEN [g |-> c[1], s |-> c[2], ll |-> l] ELSE best

GpdFit(w) ==
  LET none == [g |-> FNaN, s |-> FNaN, ll |-> FNaN] IN
  IF w = << >> THEN none
  ELSE LET rt(I) == IF FIsFin(I[1]) /\ FIsFin(I[2]) THEN GrimRoot(w, I) ELSE [found |-> FALSE, root |-> F0]
           L == rt(GrimLeft(w))
           R == rt(GrimRight(w))
           c0 == << MomCand(w), ExpCand(w) >>
           c1 == IF L.found /\ ~FEq(L.root, F0) THEN Append(c0, GrimCand(w, L.root)) ELSE c0
           c2 == IF R.found /\ ~FEq(R.root, F0) THEN Append(c1, GrimCand(w, R.root)) ELSE c1
       IN FoldLeft(LAMBDA b, c : Better(w, b, c), none, c2)
=============================================================================
