------------------------------- MODULE Bounds -------------------------------
(* The algebra of index ranges.  A register file of ranges [lo, hi, st];    *)
(* the operations change exactly the ends they name.  A range selects       *)
(* lo, lo+st, ... <= hi; hi = lo - 1 is the empty range.                    *)
EXTENDS Integers, Sequences, Grid, FiniteSets

Range(lo, hi, st) == [lo |-> lo, hi |-> hi, st |-> st]

\* plain ranges: + moves the upper end, - the lower end, whatever the sign
PlainPlus(b, k) == [b EXCEPT !.hi = @ + k]
Minus(b, k) == [b EXCEPT !.lo = @ - k]
\* ranges of a named axis: + k grows the end k points at
DirPlus(b, k) == IF k >= 0 THEN [b EXCEPT !.hi = @ + k] ELSE [b EXCEPT !.lo = @ + k]
Expand(b, k) == [b EXCEPT !.lo = @ - k, !.hi = @ + k]
Move(b, k) == [b EXCEPT !.lo = @ + k, !.hi = @ + k]
Unit(b) == [b EXCEPT !.st = 1]

\* operations <<code, target, source, k>>: target := f(source, k)
Apply(op, b) ==
  CASE op[1] = 0 -> PlainPlus(b, op[4])     \* bounds + k, and += on any range
    [] op[1] = 1 -> Minus(b, op[4])         \* b - k, -= k
    [] op[1] = 2 -> DirPlus(b, op[4])       \* dir_bounds + k
    [] op[1] = 3 -> Expand(b, op[4])
    [] op[1] = 4 -> Move(b, op[4])
    [] op[1] = 5 -> Unit(b)
    [] op[1] = 6 -> b                       \* copy
    [] op[1] = 7 -> PlainPlus(b, op[4])     \* += k in place
    [] op[1] = 8 -> Minus(b, op[4])         \* -= k in place
    [] op[1] = 9 -> Expand(b, op[4])        \* plain bounds expand

Lawful(b) == b.hi >= b.lo - 1
Do(regs, op) == [regs EXCEPT ![op[2]] = Apply(op, regs[op[3]])]
\* what a range reports
Seen(b) == <<b.lo, b.hi, b.st, Count(b)>>

(* Laws, model checked (BoundsLaws): *)
Selected(b) == {x \in b.lo..b.hi : (x - b.lo) % b.st = 0}
SizeIsSelection(b) == Count(b) = Cardinality(Selected(b))
=============================================================================
