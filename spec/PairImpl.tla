------------------------------ MODULE PairImpl ------------------------------
(* The algorithm of the neighbour-pair views: a base cursor, the position  *)
(* within the current run and the distance to the end, transcribed         *)
(* operation by operation.  The state is always the canonical one of the   *)
(* position, so the pair seen is the one Views names, in whatever way the   *)
(* position was reached.                                                   *)
(*   Jump = "fixed"     the jump of the current tree                        *)
(*   Jump = "original"  the jump as it was before the repair recorded in    *)
(*                      known-findings.txt; TLC finds its counterexample    *)
EXTENDS Cursor, Views, TLC
CONSTANTS MaxDim, MaxExt, Jump

VARIABLES n, ax, s, c
vars == <<n, ax, s, c>>

View(nn, a) == [kind |-> "box", ord |-> [m \in 1..Len(nn) |-> m], lo |-> [m \in 1..Len(nn) |-> 0],
                hi |-> [m \in 1..Len(nn) |-> nn[m] - 1],
                dom |-> [m \in 1..Len(nn) |-> [ax |-> m, lo |-> 0, hi |-> nn[m] - 1, st |-> 1]],
                pair |-> a]
Dims(nn, a) == [m \in 1..Len(nn) |-> IF m = a THEN nn[m] - 1 ELSE nn[m]]
Stride == ProdFrom(n, ax + 1)
Limit == ProdFrom(Dims(n, ax), ax)
Total == ProdFrom(Dims(n, ax), 1)

ImplInc(x) ==
  LET y == [first |-> x.first + 1, cur |-> x.cur + 1, dtl |-> x.dtl - 1]
      hit == IF y.dtl # 0 /\ Limit - y.cur = 0 THEN 1 ELSE 0
  IN  [y EXCEPT !.cur = @ - hit * Limit, !.first = @ + hit * Stride]
ImplDec(x) ==
  LET y == [first |-> x.first - 1, cur |-> x.cur - 1, dtl |-> x.dtl + 1]
      hit == IF 1 + y.cur = 0 THEN 1 ELSE 0
  IN  [y EXCEPT !.cur = @ + hit * Limit, !.first = @ - hit * Stride]

\* C++ division and remainder truncate towards zero
CDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
CMod(a, b) == a - CDiv(a, b) * b
B(x) == IF x THEN 1 ELSE 0

ImplAdvance(x, d) ==
  LET dtl == x.dtl - d
      base == d + x.cur
  IN  IF Jump = "fixed"
      THEN LET back == B(CMod(base, Limit) < 0)
               blocks == CDiv(base, Limit) - back
               rem == CMod(base, Limit) + back * Limit
               last == B(dtl = 0) * B(rem = 0)
           IN  [first |-> x.first + d + (blocks - last) * Stride, cur |-> rem + last * Limit, dtl |-> dtl]
      ELSE LET back == B(base < 0)
               last == B(dtl = 0)
           IN  [first |-> x.first + d + CDiv(base, Limit) * Stride - back * Stride - last * (Stride - 1),
                cur |-> back * Limit + CMod(base, Limit) + last * Limit, dtl |-> dtl]

Canon(p) ==
  LET last == B(p = Total)
      blk == p \div Limit - last
  IN  [first |-> p + blk * Stride, cur |-> p - blk * Limit, dtl |-> Total - p]

Shapes == UNION {[1..d -> 1..MaxExt] : d \in 1..MaxDim}
Init == /\ n \in Shapes /\ ax \in 1..Len(n) /\ n[ax] > 1
        /\ s = [first |-> 0, cur |-> 0, dtl |-> Total]
        /\ c = Start
Next ==
  /\ UNCHANGED <<n, ax>>
  /\ \/ Enabled(Total, c, <<0, 0>>) /\ s' = ImplInc(s) /\ c' = Step(c, <<0, 0>>)
     \/ Enabled(Total, c, <<1, 0>>) /\ s' = ImplDec(s) /\ c' = Step(c, <<1, 0>>)
     \/ \E q \in 0..Total : s' = ImplAdvance(s, q - c.pos) /\ c' = Step(c, <<2, q - c.pos>>)

Refines == s = Canon(c.pos)
PairSeen == c.pos < Total => <<s.first, s.first + Stride>> = Element(View(n, ax), c.pos)
=============================================================================
