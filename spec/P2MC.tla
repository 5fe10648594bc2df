-------------------------------- MODULE P2MC --------------------------------
(* Every batch of at most Depth data over Vals: the five markers stay sorted *)
(* and inside the range of the data, and the estimate is equivariant.        *)
EXTENDS P2, Gpd, TLC, Integers, Sequences

CONSTANTS Depth, Vals, Levels, Emit

VARIABLES level, data
vars == << level, data >>

Init == level \in Levels /\ data = << >>
Next == /\ Len(data) < Depth
        /\ \E v \in Vals : data' = Append(data, v)
        /\ UNCHANGED level
Spec == Init /\ [][Next]_vars

P == FDec(level)
B == [i \in 1..Len(data) |-> FInt(data[i])]
M == P2Markers(P, B)
Short == Len(B) < 5 => FIsNaN(P2Quantile(P, B))
InRange == Len(B) >= 5 =>
  /\ FEq(M.q[1], MinSeq(B)) /\ FEq(M.q[5], MaxSeq(B))
  /\ \A i \in 1..4 : FLe(M.q[i], M.q[i + 1])
Median == Len(B) = 5 => FEq(P2Quantile(P, B), FSort(B)[3])
\* positions of the markers are strictly ordered
Positions == Len(B) >= 5 => \A i \in 1..4 : FLt(M.n[i], M.n[i + 1])
\* equivariance under x -> 4x + 16 (exact in binary64)
Affine == Len(B) >= 5 =>
  LET T(x) == FAdd(FMul(FDec("4"), x), FDec("16"))
  IN FRel(P2Quantile(P, [i \in 1..Len(B) |-> T(B[i])]), T(P2Quantile(P, B)), FDec("1e-12"))
EmitScripts == Emit /\ Len(data) = Depth => PrintT(<< "SCRIPT", level, data >>)
=============================================================================
