----------------------------- MODULE CoarseImpl -----------------------------
(* The coarse index of a fine index, computed without branches and with    *)
(* truncating division as in the code, is floor division; and a view        *)
(* started anywhere reads the coarse cell that contains the fine cell.      *)
EXTENDS Cursor, Integers, TLC
CONSTANTS MaxRatio, Span
VARIABLES r, f0, fi, c
CDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Coarse(rr, f) == LET neg == IF f < 0 THEN 1 ELSE 0
                 IN  (1 - neg) * CDiv(f, rr) + neg * (CDiv(f + 1, rr) - 1)
Total == Span
Init == r \in 1..MaxRatio /\ f0 \in -Span..Span /\ fi = f0 /\ c = Start
Next ==
  /\ UNCHANGED <<r, f0>>
  /\ \/ Enabled(Total, c, <<0, 0>>) /\ fi' = fi + 1 /\ c' = Step(c, <<0, 0>>)
     \/ Enabled(Total, c, <<1, 0>>) /\ fi' = fi - 1 /\ c' = Step(c, <<1, 0>>)
     \/ \E q \in 0..Total : fi' = fi + (q - c.pos) /\ c' = Step(c, <<2, q - c.pos>>)
\* relative to the base coarse index chosen at construction
Reads == Coarse(r, f0) + (Coarse(r, fi) - Coarse(r, f0)) = (f0 + c.pos) \div r
Contains == LET q == Coarse(r, fi) IN r * q <= fi /\ fi <= r * q + r - 1
=============================================================================
