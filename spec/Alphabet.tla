------------------------------ MODULE Alphabet ------------------------------
(* Symbolic calls: batches, and data placed relatively to the state of the   *)
(* detector (harness/driver.c resolves them in the same way).                *)
EXTENDS Spot, Integers, Sequences

MCq == FDec("0.01")
MCLevel == FDec("0.5")

D(seq) == [i \in 1..Len(seq) |-> FDec(seq[i])]
Sign(low, seq) == IF low = 1 THEN [i \in 1..Len(seq) |-> FNeg(seq[i])] ELSE seq

\* the batches (mirrored for the lower tail)
Batch(op, low) ==
  Sign(low,
    CASE op = "fit5"     -> D(<<"3", "1", "2", "5", "4.5">>)
      [] op = "fit9"     -> D(<<"0.5", "7.25", "1.5", "2.75", "3", "0.125", "4", "11", "2.5">>)
      [] op = "fitconst" -> D(<<"2", "2", "2", "2", "2", "2">>)
      [] op = "fitshort" -> D(<<"1", "2", "3", "4">>)
      [] op = "fitties"  -> D(<<"1", "1", "2", "2", "3", "3", "3", "1">>)
      [] op = "fit0"     -> << >>
      [] op = "fithuge"  -> D(<<"1e300", "-1e300", "1e308", "3e299", "-1e308", "7e307", "1e300">>)
      [] op = "fittiny"  -> D(<<"4.9e-324", "0", "1e-310", "2e-308", "-4.9e-324", "1e-300">>)
      [] op = "fitinf"   -> << F1, F2, FInf, FDec("3"), FNInf, FDec("4"), FDec("9"), FInf >>
      [] op = "fitnan"   -> << F1, F2, FNaN, FDec("3"), FDec("4"), FDec("7"), FDec("9") >>
      [] op = "fitnans"  -> << FNaN, FNaN, FNaN, FNaN, FNaN, FNaN >>)

\* the data, relative to the state (same resolution as harness/driver.c)
Sgn(s) == IF s.low = 1 THEN FNeg(F1) ELSE F1
Ulp(s, x, k) == CASE k = 0 -> x
                  [] k = 1 -> IF s.low = 1 THEN FDown(x) ELSE FUp(x)
                  [] k = -1 -> IF s.low = 1 THEN FUp(x) ELSE FDown(x)
AtT(s, k) == IF FIsNaN(s.et) THEN FMul(Sgn(s), FInt(1 + k)) ELSE Ulp(s, s.et, k)
AtZ(s, k) == IF FIsNaN(s.zq) THEN FMul(Sgn(s), FInt(2 + k)) ELSE Ulp(s, s.zq, k)
AtM(s, f) == LET x == FAdd(s.et, FMul(f, FSub(s.zq, s.et))) IN IF FIsNaN(x) THEN FMul(Sgn(s), f) ELSE x
AtA(s, f) == LET x == FAdd(s.et, FMul(Sgn(s), f)) IN IF FIsNaN(x) THEN FMul(Sgn(s), f) ELSE x
Datum(op, s) ==
  CASE op = "T-1" -> AtT(s, -1) [] op = "T" -> AtT(s, 0) [] op = "T+1" -> AtT(s, 1)
    [] op = "Z-1" -> AtZ(s, -1) [] op = "Z" -> AtZ(s, 0) [] op = "Z+1" -> AtZ(s, 1)
    [] op = "B" -> AtA(s, FDec("-1.5")) [] op = "E1" -> AtA(s, FDec("0.625")) [] op = "E2" -> AtA(s, FDec("2.25"))
    [] op = "M" -> AtM(s, FDec("0.3")) [] op = "F" -> AtM(s, FDec("3"))
    [] op = "+inf" -> FInf [] op = "-inf" -> FNInf [] op = "NaN" -> FNaN
    [] op = "max" -> FDec("1.7976931348623157e308") [] op = "-max" -> FDec("-1.7976931348623157e308")
    [] op = "tiny" -> FDec("4.9e-324") [] op = "zero" -> F0

\* a symbolic call applied to a state
FitNames == {"fit5", "fit9", "fitconst", "fitshort", "fitties", "fit0",
             "fithuge", "fittiny", "fitinf", "fitnan", "fitnans"}
Apply(s, op) == IF op \in FitNames THEN SpotFit(s, Batch(op, s.low)) ELSE SpotStep(s, Datum(op, s))
=============================================================================
