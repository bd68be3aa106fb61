------------------------------- MODULE Boundary -------------------------------
(* One boundary problem, stated three ways: as values of ghost cells, as an     *)
(* adjusted stencil, and as a changed right-hand side; and what must hold         *)
(* between them.                                                                *)
(*                                                                            *)
(* A scenario is a record; its steps are kernel calls (k and the arguments that  *)
(* select a variant), its arguments p are the numbers all its calls share:       *)
(*   lo, hi, dx, alpha, beta   box, spacings, operator -beta div b grad + alpha   *)
(*   ba, bb                    the boundary condition bb u = ba b du/dn (btype 4); *)
(*                             u = 0 (btype 0), du/dn = 0 (btype 1)               *)
(*   sLo, sHi                  the segment: tangential limits on one side of dir  *)
(* Arrays: u (with ghosts), rhs, a, b0.., stencils st and row.                    *)
(*                                                                            *)
(* Scenarios                                                                   *)
(*   elim   st is adjusted at the segment, row is not, the ghosts are filled      *)
(*   cf     the same at a coarse-fine interface: the ghost is a coarse value       *)
(*   move   st and row are adjusted alike, then the coupling to the ghosts is      *)
(*          moved from st to the right-hand side                                  *)
(*   fill   all sides, then edges, then corners are filled                        *)
(*   homog  sides are filled in the given order with extrapolation of order 1..4   *)
EXTENDS Operator

TwoB == << <<0, 1>>, <<0, 2>>, <<1, 1>>, <<1, 2>>, <<4, 1>>, <<4, 2>> >>

\* ---- scenarios
RobinOk(n, dir, bt) == ~(bt = 4 /\ n = 2 /\ dir = 1)     \* two dimensions: x sides only
(* adj_diag belongs to the Robin condition; for the Dirichlet condition of      *)
(* second order the adjusted off-diagonals already give the eliminated row       *)
DirichletDiag(s) == s.btype = 0 /\ s.ord = 2 /\ ((s.coef /\ s.n > 1) \/ (~s.coef /\ s.n = 3))
Elims(n) ==
  {s \in [kind : {"elim"}, n : {n}, coef : BOOLEAN, react : {"v1", "v2", "none"}, dir : 0..(n - 1), side : {0, 1},
          btype : {0, 1, 4}, ord : {1, 2}, adjd : BOOLEAN] :
     RobinOk(n, s.dir, s.btype) /\ ((s.btype = 4 /\ s.ord = 2) => s.adjd)}
Cfs(n) ==
  {s \in [kind : {"cf"}, n : {n}, coef : BOOLEAN, react : {"v1", "v2", "none"}, dir : 0..(n - 1), side : {0, 1},
          ord : {1, 2}, r : {1, 2, 3, 4, 8}, swap : BOOLEAN] : s.ord = 1 => s.r = 2}
Moves(n) ==
  {s \in [kind : {"move"}, n : {n}, coef : BOOLEAN, react : {"v1", "none"}, dir : 0..(n - 1), side : {0, 1},
          btype : {0, 1, 4, 9}, ord : {1, 2}] : RobinOk(n, s.dir, s.btype)}
\* btype 9 of a move: coarse-fine, ratio 2
Homogs == {s \in [kind : {"homog"}, n : {2}, ord : 1..4, from : 0..3] : TRUE}
LCGb(r) == LET y == 16807 * (r % 127773) - 2836 * (r \div 127773) IN IF y > 0 THEN y ELSE y + 2147483647
RECURSIVE FillSides(_, _, _, _)
FillSides(n, coef, f, r) ==
  IF f = 2 * n THEN <<>>
  ELSE LET ok == SelectSeq(TwoB, LAMBDA b : ~(b[1] = 4 /\ n = 2 /\ ~coef /\ f > 1))
       IN  << ok[1 + ((r \div 1000) % Len(ok))] >> \o FillSides(n, coef, f + 1, LCGb(r))
FillOf(n, r) == LET coef == (r \div 77) % 2 = 0
                IN  [kind |-> "fill", n |-> n, coef |-> coef, rot |-> (r \div 1234) % (2 * n), sides |-> FillSides(n, coef, 0, LCGb(r))]
Fills(n, seed, count) == {FillOf(n, LCGb(LCGb(seed * 1009 + q * 7919))) : q \in 1..count}

\* ---- steps: the calls of a scenario
Steps2(s, st, withd) ==   \* a stencil of the scenario's operator, adjusted
  << [k |-> "offdiag", coef |-> s.coef, own |-> TRUE, st |-> st] >>
  \o (IF s.kind # "cf" /\ ~(s.kind = "move" /\ s.btype = 9)
      THEN << [k |-> "adjoff", coef |-> s.coef, dir |-> s.dir, side |-> s.side, btype |-> s.btype, ord |-> s.ord, st |-> st],
              [k |-> "diag", react |-> s.react, own |-> TRUE, st |-> st] >>
           \o (IF withd THEN << [k |-> "adjdiag", coef |-> s.coef, dir |-> s.dir, side |-> s.side, btype |-> s.btype, ord |-> s.ord, st |-> st] >>
               ELSE <<>>)
      ELSE LET r == IF s.kind = "cf" THEN s.r ELSE 2
               d == [k |-> "adjcfdiag", coef |-> s.coef, dir |-> s.dir, side |-> s.side, ord |-> s.ord, r |-> r, st |-> st]
               o == [k |-> "adjcfoff", dir |-> s.dir, side |-> s.side, ord |-> s.ord, r |-> r, st |-> st]
           IN  << [k |-> "diag", react |-> s.react, own |-> TRUE, st |-> st] >> \o (IF withd THEN <<o, d>> ELSE <<d, o>>))
Plain(s, st) == << [k |-> "offdiag", coef |-> s.coef, own |-> TRUE, st |-> st], [k |-> "diag", react |-> s.react, own |-> TRUE, st |-> st] >>
SideStep(s, f, bt, ord) == [k |-> "bc", type |-> 1, coef |-> s.coef, face |-> f, btype |-> bt, ord |-> ord]
FillSteps(s) ==
  LET n == s.n
      m == 2 * n
  IN  [q \in 1..m |-> LET f == (q - 1 + s.rot) % m IN SideStep(s, f, s.sides[f + 1][1], s.sides[f + 1][2])]
      \o (IF n = 1 THEN <<>> ELSE [q \in 1..(IF n = 2 THEN 4 ELSE 12) |-> [k |-> "bc", type |-> 2, coef |-> s.coef, face |-> q - 1, btype |-> 0, ord |-> 1]])
      \o (IF n = 3 THEN [q \in 1..8 |-> [k |-> "bc", type |-> 3, coef |-> s.coef, face |-> q - 1, btype |-> 0, ord |-> 1]] ELSE <<>>)
StepsOf(s) ==
  CASE s.kind = "elim"  -> Steps2(s, "st", s.adjd) \o Plain(s, "row") \o << SideStep(s, 2 * s.dir + s.side, s.btype, s.ord) >>
    [] s.kind = "cf"    -> Steps2(s, "st", s.swap) \o Plain(s, "row")
    [] s.kind = "move"  -> Steps2(s, "st", s.btype = 4) \o Steps2(s, "row", s.btype = 4)
                           \o << [k |-> "bdryrhs", dir |-> s.dir, side |-> s.side], [k |-> "readj", dir |-> s.dir, side |-> s.side] >>
    [] s.kind = "fill"  -> FillSteps(s)
    [] s.kind = "homog" -> [q \in 1..4 |-> [k |-> "homog", face |-> (q - 1 + s.from) % 4, ord |-> s.ord]]

\* ---- the segment a step works on
GhostAt(p, d, low) == IF low THEN p.lo[d + 1] - 1 ELSE p.hi[d + 1] + 1
SideSeg(p, lo, hi, d, low) ==
  [lo |-> [m \in 1..Len(lo) |-> IF m - 1 = d THEN GhostAt(p, d, low) ELSE lo[m]],
   hi |-> [m \in 1..Len(lo) |-> IF m - 1 = d THEN GhostAt(p, d, low) ELSE hi[m]]]
EdgeAxes(n, f) == IF n = 2 THEN <<0, 1>> ELSE CASE f \div 4 = 0 -> <<0, 1>> [] f \div 4 = 1 -> <<0, 2>> [] f \div 4 = 2 -> <<1, 2>>
EdgeSeg(p, f) ==
  LET ax == EdgeAxes(Len(p.lo), f)
      at(m, v) == IF m - 1 = ax[1] THEN GhostAt(p, ax[1], Sign(f, 0) = 1)
                  ELSE IF m - 1 = ax[2] THEN GhostAt(p, ax[2], Sign(f, 1) = 1) ELSE v
  IN  [lo |-> [m \in 1..Len(p.lo) |-> at(m, p.lo[m])], hi |-> [m \in 1..Len(p.lo) |-> at(m, p.hi[m])]]
CornerSeg(p, f) ==
  LET at == [m \in 1..3 |-> GhostAt(p, m - 1, ((f \div (CASE m = 1 -> 1 [] m = 2 -> 2 [] m = 3 -> 4)) % 2) = 0)]
  IN  [lo |-> at, hi |-> at]
SegOf(p, c) ==
  CASE c.k = "bc" /\ c.type = 1 -> SideSeg(p, p.sLo, p.sHi, c.face \div 2, c.face % 2 = 0)
    [] c.k = "bc" /\ c.type = 2 -> EdgeSeg(p, c.face)
    [] c.k = "bc" /\ c.type = 3 -> CornerSeg(p, c.face)
    [] c.k = "homog" -> [lo |-> p.lo, hi |-> p.hi]
    [] OTHER -> SideSeg(p, p.sLo, p.sHi, c.dir, c.side = 0)
HasSeg(c) == c.k \in {"bc", "homog", "adjdiag", "adjoff", "adjcfdiag", "adjcfoff", "readj", "bdryrhs"}

\* a step with all its arguments, for Kernels!Exec
CallFor(p, c) ==
  LET n == Len(p.lo)
      sg == IF HasSeg(c) THEN SegOf(p, c) ELSE [lo |-> p.lo, hi |-> p.hi]
      bdry == c.k \in {"bc", "homog"}
  IN  c @@ [lo |-> p.lo, hi |-> p.hi, dx |-> p.dx, alpha |-> IF bdry THEN p.ba ELSE p.alpha, beta |-> IF bdry THEN p.bb ELSE p.beta,
            bLo |-> sg.lo, bHi |-> sg.hi, pLo |-> sg.lo, pHi |-> sg.hi, b |-> Names("b", n), d |-> Names("b", n), a |-> "a",
            u |-> "u", rhs |-> "rhs", st |-> "st", dirf |-> N(2), zero |-> FALSE, coef |-> FALSE]

\* ---- interpolation: weights of the polynomial through nodes s (half-cell units)
RECURSIVE ProdF(_, _, _)
ProdF(F(_), lo, hi) == IF hi < lo THEN One ELSE Mul(F(lo), ProdF(F, lo + 1, hi))
ValueAt(s, j, t) ==     \* of the j-th node, for the value at t
  ProdF(LAMBDA k : IF k = j THEN One ELSE Q(t - s[k], s[j] - s[k]), 1, Len(s))
SlopeAt(s, j, t) ==     \* for the derivative at t
  SumF(LAMBDA i : IF i = j THEN Zero
                  ELSE Mul(Q(1, s[j] - s[i]), ProdF(LAMBDA k : IF k \in {i, j} THEN One ELSE Q(t - s[k], s[j] - s[k]), 1, Len(s))), 1, Len(s))
Nodes(m) == [q \in 1..(m + 1) |-> 2 * q - 3]      \* the ghost at -1, the cells at 1, 3, ..; the face at 0

\* the polynomial through ghost c and the next m cells along +-d satisfies the condition at the face
Meets(x, p, c, d, sg, m, btype, b, ba, bb) ==
  LET s == Nodes(m)
      u(q) == Get(x, "u", Sh(c, d, sg * (q - 1)))
      val == SumF(LAMBDA q : Mul(ValueAt(s, q, 0), u(q)), 1, m + 1)
      slope == Mul(Q(2, 1), Div(SumF(LAMBDA q : Mul(SlopeAt(s, q, 0), u(q)), 1, m + 1), p.dx[d + 1]))
  IN  CASE btype = 0 -> IsZero(val)
        [] btype = 1 -> IsZero(slope)
        [] btype = 4 -> Mul(bb, val) = Mul(Mul(ba, b), slope)

\* ---- laws
InSeg(seg, c) == InDom(BoxDom(seg.lo, seg.hi), c)
Points(seg) == LET dom == BoxDom(seg.lo, seg.hi) IN TLCEval([q \in 1..DomSize(dom) |-> DomCoord(dom, q - 1)])
AllIn(seg, F(_)) == LET cs == Points(seg) IN \A q \in 1..Len(cs) : F(cs[q])
Dot(x, w, c, T(_)) == SumF(LAMBDA m : Mul(w[m], T(m)), 1, Len(w))
\* the cells adjoining the segment
Beside(p, s, c) == InSeg(SideSeg(p, p.sLo, p.sHi, s.dir, s.side = 0), Sh(c, s.dir, 2 * s.side - 1))
FaceOf(x, s, c) == IF s.coef THEN Get(x, "b" \o ToString(s.dir), Sh(c, s.dir, s.side)) ELSE One
UEntry(s) == 2 * s.dir + s.side + 2

ElimIn(x, p, s, off(_)) ==
  All(p, LAMBDA c :
    LET st == Win(x, "st", c)  row == Win(x, "row", c)
        u(m) == Get(x, "u", Nbr(c, m))
    IN  IF ~Beside(p, s, c) THEN st = row
        ELSE Add(SumF(LAMBDA m : Mul(row[m], u(m)), 1, Len(row)), off(c))
             = SumF(LAMBDA m : IF m = UEntry(s) THEN Zero ELSE Mul(st[m], u(m)), 1, Len(st)))
Elim(x, p, s) == ElimIn(x, p, s, LAMBDA c : Zero)
\* what adj_diag adds for the Dirichlet condition of second order
Excess(x, p, s) ==
  ElimIn(x, p, s, LAMBDA c : Mul(Mul(Div(p.beta, Mul(N(3), Mul(p.dx[s.dir + 1], p.dx[s.dir + 1]))), FaceOf(x, s, c)), Get(x, "u", c)))

(* a coarse value at distance r/2 beyond the interface; the fine ghost lies on    *)
(* the polynomial through it and the next ord cells; units of half a fine cell     *)
CoarseFine(x, p, s) ==
  LET nodes == <<-s.r>> \o [q \in 1..s.ord |-> 2 * q - 1]
      U == UEntry(s)
      sg == 1 - 2 * s.side
  IN  All(p, LAMBDA c :
        LET st == Win(x, "st", c)  row == Win(x, "row", c)
            u(m) == Get(x, "u", Nbr(c, m))
            ghost == Add(Mul(ValueAt(nodes, 1, -1), u(U)),
                         SumF(LAMBDA q : Mul(ValueAt(nodes, q + 1, -1), Get(x, "u", Sh(c, s.dir, sg * (q - 1)))), 1, s.ord))
        IN  IF ~Beside(p, s, c) THEN st = row
            ELSE SumF(LAMBDA m : Mul(st[m], u(m)), 1, Len(st))
                 = SumF(LAMBDA m : Mul(row[m], IF m = U THEN ghost ELSE u(m)), 1, Len(row)))

\* residuals agree before and after the coupling is moved, and nothing couples to the ghosts any more
Moved(x0, x, p, s) ==
  All(p, LAMBDA c :
    LET st == Win(x, "st", c)  row == Win(x, "row", c)
        u(m) == Get(x, "u", Nbr(c, m))
        L(w) == SumF(LAMBDA m : Mul(w[m], u(m)), 1, Len(w))
    IN  /\ Sub(Get(x, "rhs", c), L(st)) = Sub(Get(x0, "rhs", c), L(row))
        /\ Beside(p, s, c) => IsZero(st[UEntry(s)])
        /\ ~Beside(p, s, c) => (st = row /\ Get(x, "rhs", c) = Get(x0, "rhs", c)))
CellsKept(x0, x, p) == All(p, LAMBDA c : Get(x, "u", c) = Get(x0, "u", c))

FilledSide(x, p, s, f, bt, ord) ==
  LET d == f \div 2
      sg == IF f % 2 = 0 THEN 1 ELSE -1
      b(c) == IF s.coef THEN Get(x, "b" \o ToString(d), IF sg = 1 THEN Sh(c, d, 1) ELSE c) ELSE One
  IN  AllIn(SideSeg(p, p.sLo, p.sHi, d, f % 2 = 0),
            LAMBDA c : Meets(x, p, c, d, sg, IF bt = 1 THEN 1 ELSE ord, bt, b(c), p.ba, p.bb))
MixedZero(x, c, d1, d2, s1, s2) ==
  Add(Get(x, "u", c), Get(x, "u", Sh(Sh(c, d1, s1), d2, s2))) = Add(Get(x, "u", Sh(c, d1, s1)), Get(x, "u", Sh(c, d2, s2)))
FilledEdges(x, p) ==
  LET n == Len(p.lo)
  IN  n > 1 => \A f \in 0..(IF n = 2 THEN 3 ELSE 11) :
        LET ax == EdgeAxes(n, f)
        IN  AllIn(EdgeSeg(p, f), LAMBDA c : MixedZero(x, c, ax[1], ax[2], Sign(f, 0), Sign(f, 1)))
FilledCorners(x, p) ==
  Len(p.lo) = 3 => \A f \in 0..7 : AllIn(CornerSeg(p, f), LAMBDA c : MixedZero(x, c, 0, 1, Sign(f, 0), Sign(f, 1)))
FilledHomog(x, p, s) ==
  LET cnr(l0, l1) == [a \in {J, I} |-> IF a = I THEN GhostAt(p, 0, l0) ELSE GhostAt(p, 1, l1)]
  IN  /\ \A f \in 0..3 :
           AllIn(SideSeg(p, p.lo, p.hi, f \div 2, f % 2 = 0),
                 LAMBDA c : Meets(x, p, c, f \div 2, IF f % 2 = 0 THEN 1 ELSE -1, s.ord, 0, One, One, One))
      /\ \A l0 \in BOOLEAN, l1 \in BOOLEAN :
           Get(x, "u", cnr(l0, l1)) = Get(x, "u", Sh(Sh(cnr(l0, l1), 0, IF l0 THEN 1 ELSE -1), 1, IF l1 THEN 1 ELSE -1))

\* <<name, holds>> at the end of scenario s; x0: the contents before it
BdryLaws(x0, x, p, s, lenient) ==
  CASE s.kind = "elim" ->
         IF s.adjd /\ DirichletDiag(s)
         THEN << <<"adj_diag keeps the Dirichlet row", (lenient /\ Excess(x, p, s)) \/ Elim(x, p, s)>>, <<"cells kept", CellsKept(x0, x, p)>> >>
         ELSE << <<"adjusted row = row with filled ghost", Elim(x, p, s)>>, <<"cells kept", CellsKept(x0, x, p)>>,
                 <<"condition met", FilledSide(x, p, s, 2 * s.dir + s.side, s.btype, s.ord)>> >>
    [] s.kind = "cf" -> << <<"adjusted row = row with interpolated ghost", CoarseFine(x, p, s)>> >>
    [] s.kind = "move" -> << <<"moving the coupling keeps the residual", Moved(x0, x, p, s)>> >>
    [] s.kind = "fill" ->
         << <<"every side meets its condition", \A f \in 0..(2 * s.n - 1) : FilledSide(x, p, s, f, s.sides[f + 1][1], s.sides[f + 1][2])>>,
            <<"edges are bilinear", FilledEdges(x, p)>>, <<"corners are bilinear", FilledCorners(x, p)>>, <<"cells kept", CellsKept(x0, x, p)>> >>
    [] s.kind = "homog" -> << <<"extrapolation vanishes on the face", FilledHomog(x, p, s)>>, <<"cells kept", CellsKept(x0, x, p)>> >>
BdryBroken(x0, x, p, s, lenient) == SelectSeq(BdryLaws(x0, x, p, s, lenient), LAMBDA l : ~l[2])
=============================================================================
