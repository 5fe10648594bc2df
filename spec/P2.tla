--------------------------------- MODULE P2 ---------------------------------
(* Streaming quantile estimation with five markers (P2 algorithm), in the    *)
(* variant of the library: a datum beyond the extreme markers only moves the *)
(* extreme marker (see known finding K2).                                    *)
EXTENDS F64, Naturals, Sequences, SequencesExt

LOCAL F4 == FDec("4")

\* markers: heights q, positions n, desired positions np; increments dn
P2Init(p, first) ==
  [ q  |-> FSort(first),
    n  |-> << F0, F1, F2, FDec("3"), F4 >>,
    np |-> << F0, FMul(F2, p), FMul(F4, p), FAdd(F2, FMul(F2, p)), F4 >>,
    dn |-> << F0, FDiv(p, F2), p, FDiv(FAdd(p, F1), F2), F1 >>,
    inex |-> {}, amb |-> FALSE ]

Parab(m, i, d) ==
  LET up == FDiv(FMul(FAdd(FSub(m.n[i], m.n[i-1]), d), FSub(m.q[i+1], m.q[i])), FSub(m.n[i+1], m.n[i]))
      dw == FDiv(FMul(FSub(FSub(m.n[i+1], m.n[i]), d), FSub(m.q[i], m.q[i-1])), FSub(m.n[i], m.n[i-1]))
  IN FAdd(m.q[i], FMul(FDiv(d, FSub(m.n[i+1], m.n[i-1])), FAdd(up, dw)))

Linear(m, i, d, k) ==
  FAdd(m.q[i], FDiv(FMul(d, FSub(m.q[k], m.q[i])), FSub(m.n[k], m.n[i])))

\* a decision that rounding errors could change: x and y are very close
P2Close(m, x, y) ==
  FLe(FAbs(FSub(x, y)), FMul(FDec("1e-9"), FSub(m.q[5], m.q[1])))

\* x has few binary digits
LOCAL Dyadic(x) ==
  LET y == FMul(x, FDec("1024"))
  IN FLt(FAbs(y), FDec("1e9")) /\ FEq(FInt(FTrunc(y)), y)

\* the adjustment of marker i is free of rounding, whatever the order of its
\* operations: it divides by powers of two (and by three, multiples of three)
\* numbers with few binary digits that are known without error themselves
P2Exact(m, i) ==
  LET a == FSub(m.n[i], m.n[i-1])
      b == FSub(m.n[i+1], m.n[i])
      third(x) == LET y == FDiv(x, FDec("3")) IN Dyadic(y) /\ FEq(FMul(FDec("3"), y), x)
  IN /\ \/ FEq(a, b) /\ \E k \in {2, 4, 8, 16, 32} : FEq(a, FInt(k))
        \/ /\ << a, b >> \in { << F1, F2 >>, << F2, F1 >> }
           /\ third(FSub(m.q[i], m.q[i-1])) /\ third(FSub(m.q[i+1], m.q[i]))
     /\ \A j \in (i-1)..(i+1) : j \notin m.inex /\ Dyadic(m.q[j])

P2Adjust(m, i) ==
  LET d == FSub(m.np[i], m.n[i])
      right == FLe(F1, d) /\ FLt(F1, FSub(m.n[i+1], m.n[i]))
      left  == FLe(d, FNeg(F1)) /\ FLt(FSub(m.n[i-1], m.n[i]), FNeg(F1))
      sg == IF FPos(d) THEN F1 ELSE FNeg(F1)
      pq == Parab(m, i, sg)
      qp == IF FLt(m.q[i-1], pq) /\ FLt(pq, m.q[i+1]) THEN pq
            ELSE Linear(m, i, sg, IF FPos(d) THEN i + 1 ELSE i - 1)
      unsure == ~FEq(FAbs(d), F1) /\ FLt(FAbs(FSub(FAbs(d), F1)), FDec("1e-9"))
      level == FEq(m.q[i-1], m.q[i]) /\ FEq(m.q[i], m.q[i+1])
      exact == P2Exact(m, i)
      tight == ~level /\ ~exact /\ (P2Close(m, pq, m.q[i-1]) \/ P2Close(m, pq, m.q[i+1]))
  IN IF right \/ left
     THEN [m EXCEPT !.q[i] = qp, !.n[i] = FAdd(m.n[i], sg), !.inex = IF level THEN @ ELSE IF exact THEN @ \ {i} ELSE @ \cup {i},
                    !.amb = @ \/ unsure \/ tight]
     ELSE [m EXCEPT !.amb = @ \/ unsure]

\* comparisons of the datum with the markers that rounding could change
P2Unsure(m, x) ==
  \E j \in 1..5 : P2Close(m, x, m.q[j]) /\ (~FEq(x, m.q[j]) \/ j \in m.inex)

P2Move(m, x, up(_)) ==
  LET m1 == [m EXCEPT !.n = [i \in 1..5 |-> IF up(i) THEN FAdd(m.n[i], F1) ELSE m.n[i]],
                      !.np = [i \in 1..5 |-> FAdd(m.np[i], m.dn[i])],
                      !.amb = @ \/ P2Unsure(m, x)]
  IN P2Adjust(P2Adjust(P2Adjust(m1, 2), 3), 4)

\* the library: a datum equal to a marker lies in the cell below it
P2Step(m, x) ==
  IF FLt(x, m.q[1]) THEN [m EXCEPT !.q[1] = x]
  ELSE IF FGt(x, m.q[5]) THEN [m EXCEPT !.q[5] = x]
  ELSE P2Move(m, x, LAMBDA i : \E j \in 1..i : ~FGt(x, m.q[j]))

\* the same with the other convention: in the cell above it
P2StepTies(m, x) ==
  IF FLt(x, m.q[1]) THEN [m EXCEPT !.q[1] = x]
  ELSE IF FGt(x, m.q[5]) THEN [m EXCEPT !.q[5] = x]
  ELSE P2Move(m, x, LAMBDA i : i = 5 \/ (i > 1 /\ FLt(x, m.q[i])))

\* canonical variant (Jain & Chlamtac): extremes update the positions as well
P2StepCanonical(m, x) ==
  LET m0 == [m EXCEPT !.q[1] = FMin(x, m.q[1]), !.q[5] = FMax(x, m.q[5])]
  IN P2Move(m0, x, LAMBDA i : i = 5 \/ (i > 1 /\ FLt(x, m.q[i])))

P2Run(Step(_, _), p, data) ==
  FoldLeft(Step, P2Init(p, SubSeq(data, 1, 5)), SubSeq(data, 6, Len(data)))
P2Markers(p, data) == P2Run(P2Step, p, data)

P2Quantile(p, data) == IF Len(data) < 5 THEN FNaN ELSE P2Markers(p, data).q[3]

\* x is the P2 estimate of one variant: "lib", the library's; "ties", with a
\* datum equal to a marker in the cell above; "canon", the canonical one
\* (undecided when a rounding error could have changed a decision)
P2Variants == {"lib", "ties", "canon"}
P2Is(v, x, p, data, tol) ==
  LET m == CASE v = "lib" -> P2Run(P2Step, p, data)
             [] v = "ties" -> P2Run(P2StepTies, p, data)
             [] v = "canon" -> P2Run(P2StepCanonical, p, data)
  IN m.amb \/ FNear(x, m.q[3], tol)
=============================================================================
