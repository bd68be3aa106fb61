--------------------------- MODULE TraversalImpl ---------------------------
(* The algorithm of the box views (an odometer with a special past-the-end *)
(* position), transcribed operation by operation, refines the Cursor       *)
(* machine: its logical coordinate is always the one the position names.   *)
EXTENDS Cursor, Grid, TLC
CONSTANTS MaxDim, MaxExt

VARIABLES n, cur, c
vars == <<n, cur, c>>
ND == Len(n)
Total == ProdFrom(n, 1)

RECURSIVE OdoInc(_, _, _)
\* one pass of the branch-free loop from dimension m down, with carry f
OdoInc(x, m, f) ==
  IF m = 0 THEN <<x, f>>
  ELSE LET a == IF n[m] - 1 - x[m] = 0 THEN 1 ELSE 0
           b == 1 - a * n[m]
           sh == f * b
       IN  OdoInc([x EXCEPT ![m] = @ + sh], m - 1, IF sh - 1 # 0 THEN f ELSE 0)
ImplInc(x) ==
  LET r == OdoInc(x, ND, 1)
      y == r[1]
      f == r[2]
  IN  [m \in 1..ND |-> IF m < ND THEN y[m] + f * (n[m] - 1) ELSE y[m] + f * n[m]]

RECURSIVE OdoDec(_, _, _)
OdoDec(x, m, f) ==
  IF m = 0 THEN x
  ELSE LET a == IF x[m] = 0 THEN 1 ELSE 0
           b == -1 + a * n[m]
           sh == f * b
       IN  OdoDec([x EXCEPT ![m] = @ + sh], m - 1, IF sh + 1 # 0 THEN f ELSE 0)

Ravel(x) == RavelFrom(n, x, 1, 0)
\* C++ integer division truncates; the arguments here are never negative
ImplUnravel(p) ==
  LET y == [m \in 1..ND |-> IF m = 1 THEN p \div ProdFrom(n, 2)
                            ELSE (p \div ProdFrom(n, m + 1)) % n[m]]
      f == IF n[1] - y[1] = 0 THEN 1 ELSE 0
  IN  IF ND = 1 THEN <<p>>
      ELSE [m \in 1..ND |-> IF m = 1 THEN y[1] - f
                            ELSE IF m < ND THEN y[m] + f * (n[m] - 1)
                            ELSE y[m] + f * n[m]]
ImplAdvance(x, d) == ImplUnravel(d + Ravel(x))

Shapes == UNION {[1..d -> 1..MaxExt] : d \in 1..MaxDim}
Init == n \in Shapes /\ cur = [m \in 1..Len(n) |-> 0] /\ c = Start
Next ==
  \/ Enabled(Total, c, <<0, 0>>) /\ cur' = ImplInc(cur) /\ c' = Step(c, <<0, 0>>) /\ UNCHANGED n
  \/ Enabled(Total, c, <<1, 0>>) /\ cur' = OdoDec(cur, ND, 1) /\ c' = Step(c, <<1, 0>>) /\ UNCHANGED n
  \/ \E q \in 0..Total : cur' = ImplAdvance(cur, q - c.pos) /\ c' = Step(c, <<2, q - c.pos>>) /\ UNCHANGED n

\* simulation relation
Refines ==
  /\ Ravel(cur) = c.pos
  /\ c.pos < Total => cur = Unravel(n, c.pos)
  /\ c.pos = Total => cur = [m \in 1..ND |-> IF m < ND THEN n[m] - 1 ELSE n[m]]
=============================================================================
