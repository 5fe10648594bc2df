-------------------------------- MODULE Ring --------------------------------
(* The bounded container of the excesses and its running statistics, as the  *)
(* library implements them: a circular buffer, accumulators updated at each  *)
(* push, and a full recomputation when an extreme value is evicted.          *)
EXTENDS F64, Gpd, Naturals, Sequences

RingEmpty(cap) == [cap |-> cap, cur |-> 1, filled |-> FALSE, buf |-> << >>, erased |-> FNaN]

RingSize(r) == IF r.filled THEN r.cap ELSE r.cur - 1
RingData(r) == r.buf   \* the RingSize(r) stored values, in storage order

RingPush(r, x) ==
  [ r EXCEPT
      !.erased = IF r.filled THEN r.buf[r.cur] ELSE r.erased,
      !.buf    = IF r.filled THEN [r.buf EXCEPT ![r.cur] = x] ELSE Append(r.buf, x),
      !.cur    = IF r.cur = r.cap THEN 1 ELSE r.cur + 1,
      !.filled = r.filled \/ r.cur = r.cap ]

PeaksEmpty(cap) == [ring |-> RingEmpty(cap), e |-> F0, e2 |-> F0, mn |-> FNaN, mx |-> FNaN]

PeaksRecompute(p) ==
  [p EXCEPT !.e = FSum(p.ring.buf), !.e2 = FSumSq(p.ring.buf),
            !.mn = MinSeq(p.ring.buf), !.mx = MaxSeq(p.ring.buf)]

PeaksPush(p, x) ==
  LET r  == RingPush(p.ring, x)
      one == RingSize(r) = 1
      p1 == [ ring |-> r,
              e  |-> FAdd(p.e, x), e2 |-> FAdd(p.e2, FMul(x, x)),
              mn |-> IF one \/ FLt(x, p.mn) THEN x ELSE p.mn,
              mx |-> IF one \/ FGt(x, p.mx) THEN x ELSE p.mx ]
      er == r.erased
      p2 == [p1 EXCEPT !.e = FSub(p1.e, er), !.e2 = FSub(p1.e2, FMul(er, er))]
  IN IF FIsNaN(er) THEN p1
     ELSE IF FLe(er, p2.mn) \/ FGe(er, p2.mx) \/ ~FIsFin(p2.e2) THEN PeaksRecompute(p2)
     ELSE p2
=============================================================================
