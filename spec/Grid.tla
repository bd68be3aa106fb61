-------------------------------- MODULE Grid --------------------------------
(* Named axes, boxes, and the row-major layout of arrays declared over     *)
(* boxes.  Axes are numbered as in the library: K = 0, J = 1, I = 2, and   *)
(* W = 3 is the window axis.                                               *)
(*                                                                         *)
(* An array shape is [ord, lo, hi]: the axes in storage order (slowest     *)
(* first) and, per storage position, the inclusive bounds.  Element        *)
(* addresses are 1-based positions in storage (TLA+ sequences).            *)
(* A coordinate is a function from axes to integers.                       *)
EXTENDS Integers, Sequences, TLC

K == 0
J == 1
I == 2
W == 3

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)

Ext(sh) == [m \in 1..Len(sh.ord) |-> IF sh.hi[m] < sh.lo[m] THEN 0 ELSE sh.hi[m] - sh.lo[m] + 1]
Size(sh) == ProdFrom(Ext(sh), 1)

RECURSIVE RavelFrom(_, _, _, _)
RavelFrom(ext, off, m, acc) ==
  IF m > Len(ext) THEN acc ELSE RavelFrom(ext, off, m + 1, acc * ext[m] + off[m])

RECURSIVE PosFrom(_, _, _, _)
PosFrom(sh, c, m, acc) ==
  IF m > Len(sh.ord) THEN acc
  ELSE PosFrom(sh, c, m + 1, (IF sh.hi[m] < sh.lo[m] THEN 0 ELSE acc * (sh.hi[m] - sh.lo[m] + 1)) + (c[sh.ord[m]] - sh.lo[m]))

\* zero-based row-major position of coordinate c (a function of axes)
Pos0(sh, c) == PosFrom(sh, c, 1, 0)
Addr(sh, c) == 1 + Pos0(sh, c)

\* the offsets, per dimension, of zero-based position p in row-major extents
Unravel(ext, p) ==
  [m \in 1..Len(ext) |-> (p \div ProdFrom(ext, m + 1)) % ext[m]]

AxisPos(ord, a) == CHOOSE m \in 1..Len(ord) : ord[m] = a
HasAxis(ord, a) == \E m \in 1..Len(ord) : ord[m] = a

\* coordinate of 1-based address q, as a function of the axes of the shape
CoordOf(sh, q) ==
  LET off == TLCEval(Unravel(TLCEval(Ext(sh)), q - 1))
  IN  TLCEval([a \in {sh.ord[m] : m \in 1..Len(sh.ord)} |->
                 LET m == AxisPos(sh.ord, a) IN sh.lo[m] + off[m]])

InShape(sh, c) ==
  \A m \in 1..Len(sh.ord) : c[sh.ord[m]] >= sh.lo[m] /\ c[sh.ord[m]] <= sh.hi[m]

(* A domain is a sequence of ranges [ax, lo, hi, st], slowest first; it    *)
(* selects lo, lo+st, ... <= hi on each axis.                              *)
Count(r) == IF r.hi < r.lo THEN 0 ELSE (r.hi - r.lo) \div r.st + 1
Counts(dom) == [m \in 1..Len(dom) |-> Count(dom[m])]
DomSize(dom) == ProdFrom(Counts(dom), 1)
Axes(dom) == {dom[m].ax : m \in 1..Len(dom)}
RangeOf(dom, a) == dom[CHOOSE m \in 1..Len(dom) : dom[m].ax = a]
InRange(r, x) == x >= r.lo /\ x <= r.hi /\ (x - r.lo) % r.st = 0
InDom(dom, c) == \A m \in 1..Len(dom) : InRange(dom[m], c[dom[m].ax])

\* the coordinate visited at zero-based position p of a domain
DomCoord(dom, p) ==
  LET off == TLCEval(Unravel(TLCEval(Counts(dom)), p))
  IN  TLCEval([a \in Axes(dom) |->
                 LET m == CHOOSE m \in 1..Len(dom) : dom[m].ax = a
                 IN  dom[m].lo + dom[m].st * off[m]])

Upd(c, a, v) == [c EXCEPT ![a] = v]
Shift(c, a, k) == TLCEval([c EXCEPT ![a] = @ + k])
=============================================================================
