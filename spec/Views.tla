------------------------------- MODULE Views --------------------------------
(* What every view is: a finite sequence of elements, each element a tuple *)
(* of storage positions (zero-based offsets from the base of the array).   *)
EXTENDS Integers, Sequences, Grid

(* Kinds of view records (fields of v):                                    *)
(*  "box"    : ord, lo, hi   declared array; dom  the requested ranges in   *)
(*             the requested axis order; pair  an axis number (index into   *)
(*             dom, 1-based) or 0 for plain elements                        *)
(*  "coarse" : ord, lo, hi   declared coarse array; ax  the axis walked;    *)
(*             at  the fixed coarse coordinate (per storage position);      *)
(*             ratio, f0, n                                                 *)
(*  "offset" : base, strides (one per table column), table (rows)           *)
(*  "window" : ord, lo, hi with the window axis last; dom; each element is  *)
(*             the whole window                                             *)

\* the ranges of the pair view: the paired axis loses its last point
PairDom(v) == [m \in 1..Len(v.dom) |->
                 IF m = v.pair THEN [v.dom[m] EXCEPT !.hi = @ - v.dom[m].st] ELSE v.dom[m]]

ViewSize(v) ==
  CASE v.kind = "box"    -> IF v.pair = 0 THEN DomSize(v.dom) ELSE DomSize(PairDom(v))
    [] v.kind = "window" -> DomSize(v.dom)
    [] v.kind = "coarse" -> v.n
    [] v.kind = "offset" -> Len(v.table)

RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + Dot(a, b, i + 1)

\* the element at position p, 0 <= p < ViewSize(v)
Element(v, p) ==
  CASE v.kind = "box" /\ v.pair = 0 -> << Pos0(v, DomCoord(v.dom, p)) >>
    [] v.kind = "box" /\ v.pair > 0 ->
         LET c == DomCoord(PairDom(v), p)
             r == v.dom[v.pair]
         IN  << Pos0(v, c), Pos0(v, Shift(c, r.ax, r.st)) >>
    [] v.kind = "window" ->
         LET c == DomCoord(v.dom, p)
             wm == Len(v.ord)
             at(w) == [a \in Axes(v.dom) \cup {W} |-> IF a = W THEN w ELSE c[a]]
         IN  [ w \in 1..(v.hi[wm] - v.lo[wm] + 1) |-> Pos0(v, at(v.lo[wm] + w - 1)) ]
    [] v.kind = "coarse" ->
         << RavelFrom(Ext(v),
              [m \in 1..Len(v.ord) |->
                 IF v.ord[m] = v.ax THEN ((v.f0 + p) \div v.ratio) - v.lo[m]
                 ELSE v.at[m] - v.lo[m]], 1, 0) >>
    [] v.kind = "offset" -> << v.base + Dot(v.strides, v.table[p + 1], 1) >>

(* Every element lies inside the declared array.                           *)
Within(v) ==
  v.kind # "offset" =>
    \A p \in 0..(ViewSize(v) - 1) :
      \A m \in 1..Len(Element(v, p)) : Element(v, p)[m] \in 0..(Size(v) - 1)

(* Distinct positions of a box view name distinct elements.                *)
Injective(v) ==
  v.kind = "box" =>
    \A p, q \in 0..(ViewSize(v) - 1) : p # q => Element(v, p) # Element(v, q)
=============================================================================
