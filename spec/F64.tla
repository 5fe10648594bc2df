-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 binary64 numbers: <<hi, lo>> is the double whose bit pattern has *)
(* the signed 32-bit halves hi and lo.  The operators below are evaluated by *)
(* java/F64Overrides.java (TLC operator overrides): the right-hand sides are *)
(* only their declarations (type and informal meaning).                      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Word == -2147483647..2147483647
Double == Word \X Word

FAdd(x, y)   == CHOOSE r \in Double : TRUE   \* x + y, round to nearest even
FSub(x, y)   == CHOOSE r \in Double : TRUE
FMul(x, y)   == CHOOSE r \in Double : TRUE
FDiv(x, y)   == CHOOSE r \in Double : TRUE
FNeg(x)      == CHOOSE r \in Double : TRUE
FAbs(x)      == CHOOSE r \in Double : TRUE
FLog(x)      == CHOOSE r \in Double : TRUE   \* natural logarithm (1 ulp)
FLog1p(x)    == CHOOSE r \in Double : TRUE
FExp(x)      == CHOOSE r \in Double : TRUE
FExpm1(x)    == CHOOSE r \in Double : TRUE
FPow(x, y)   == CHOOSE r \in Double : TRUE
FSqrt(x)     == CHOOSE r \in Double : TRUE
FUp(x)       == CHOOSE r \in Double : TRUE   \* next double above
FDown(x)     == CHOOSE r \in Double : TRUE   \* next double below
FMin(x, y)   == CHOOSE r \in Double : TRUE   \* NaN if one of them is NaN
FMax(x, y)   == CHOOSE r \in Double : TRUE
FLt(x, y)    == CHOOSE r \in BOOLEAN : TRUE  \* IEEE comparisons: false on NaN
FLe(x, y)    == CHOOSE r \in BOOLEAN : TRUE
FEq(x, y)    == CHOOSE r \in BOOLEAN : TRUE
FSame(x, y)  == CHOOSE r \in BOOLEAN : TRUE  \* FEq, or both NaN
FIsNaN(x)    == CHOOSE r \in BOOLEAN : TRUE
FIsFin(x)    == CHOOSE r \in BOOLEAN : TRUE
FInt(i)      == CHOOSE r \in Double : TRUE   \* the integer i as a double
FTrunc(x)    == CHOOSE r \in Int : TRUE      \* truncation to a 32-bit integer
FDec(s)      == CHOOSE r \in Double : TRUE   \* from a decimal string
FStr(x)      == CHOOSE s \in STRING : TRUE   \* to a decimal string
FSum(s)      == CHOOSE r \in Double : TRUE   \* sum of a sequence (compensated)
FSumSq(s)    == CHOOSE r \in Double : TRUE   \* sum of squares (compensated)
FSort(s)     == CHOOSE r \in Seq(Double) : TRUE  \* ascending order
FSameSeq(s, t) == CHOOSE r \in BOOLEAN : TRUE    \* FSame on each element
FUlps(x, y)  == CHOOSE r \in Nat : TRUE      \* distance in ulps (capped)

F0 == <<0, 0>>
F1 == FDec("1")
F2 == FDec("2")
FHalf == FDec("0.5")
FNaN == FDec("NaN")
FInf == FDec("inf")
FNInf == FDec("-inf")
FEps == FDec("2.220446049250313e-16")

FGt(x, y) == FLt(y, x)
FGe(x, y) == FLe(y, x)
FPos(x) == FLt(F0, x)
\* |x - y| <= tol, both NaN, or equal infinities
\* (an infinity is only near itself)
FNear(x, y, tol) == FSame(x, y) \/ (FIsFin(x) /\ FIsFin(y) /\ FLe(FAbs(FSub(x, y)), tol))
\* relative comparison
FRel(x, y, rel) == FNear(x, y, FMul(rel, FMax(FAbs(x), FAbs(y))))
=============================================================================
