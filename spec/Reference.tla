------------------------------ MODULE Reference ------------------------------
(* The solver kernels that exist only as reference routines: application of a   *)
(* general stencil, right-hand-side adjustments, smoothers (Jacobi, ordered and  *)
(* coloured Gauss-Seidel, point-block and box-block variants) and the            *)
(* node-centred operator.  Same state as Kernels.tla; a stencil array has        *)
(* decl.nw coefficients per cell (decl.nw unknowns per cell for systems).        *)
EXTENDS Kernels

\* the point displaced by o (x, y, z order)
Move(c, o) == [y \in DOMAIN c |-> c[y] + o[DirOf(y) + 1]]
St(x, a, c, s) == Get(x, a, [y \in DOMAIN c \cup {W} |-> IF y = W THEN s - 1 ELSE c[y]])

\* Sum_{s = from}^{Len(off)} st(s, c) * u(c + off[s])
Couple(x, cl, c, from) ==
  LET F(s) == Mul(St(x, cl.st, c, s), Get(x, cl.u, Move(c, cl.off[s])))
  IN  SumF(F, from, Len(cl.off))

\* ---- stencil application and right-hand sides
ApplyStencil(x, cl) ==   \* on the box cl.lo..cl.hi, a single point included
  LET F(c) == Add(Mul(cl.bb, Get(x, cl.f, c)), Mul(cl.aa, Couple(x, cl, c, 1)))
  IN  Set(x, cl.out, cl.lo, cl.hi, F)
SystemRhs(x, cl) ==
  LET F(c) == Add(Get(x, cl.f, c), Couple(x, cl, c, 1))
  IN  Set(x, cl.f, cl.lo, cl.hi, F)
\* the cells adjoining the boundary p lose the couplings that cross it
CrsFineRhs(x, cl) ==
  LET here == Layer(cl, Inner(cl))
      term(c, s) == IF cl.off[s][cl.dir + 1] = 2 * cl.side - 1
                    THEN Mul(St(x, cl.st, c, s), Get(x, cl.u, Move(c, cl.off[s]))) ELSE Zero
      F(c) == LET G(s) == term(c, s) IN Sub(Get(x, cl.rhs, c), SumF(G, 1, Len(cl.off)))
  IN  Set(x, cl.rhs, here.lo, here.hi, F)

\* ---- smoothers; the first coefficient of a stencil is the diagonal
Weight(n) == IF n = 1 THEN Q(2, 3) ELSE Q(4, 5)
Jacobi(x, cl) ==   \* simultaneous
  LET F(c) == Add(Get(x, cl.u, c),
                  Mul(Weight(Len(cl.lo)), Div(Sub(Get(x, cl.f, c), Couple(x, cl, c, 1)), St(x, cl.st, c, 1))))
  IN  Set(x, cl.u, cl.lo, cl.hi, F)

Colour(cl, c) ==   \* parity of the point: its distance along x from the low side, plus the other indices
  LET o(d) == IF d = 0 THEN c[AxOf(0)] - cl.lo[1] ELSE c[AxOf(d)]
      F[d \in 0..(Len(cl.lo) - 1)] == o(d) + (IF d = 0 THEN 0 ELSE F[d - 1])
  IN  F[Len(cl.lo) - 1] % 2
Relaxed(x, cl, c) == Div(Sub(Get(x, cl.f, c), Couple(x, cl, c, 2)), St(x, cl.st, c, 1))
Put(x, a, c, v) == [x EXCEPT !.mem[a][Addr(x.sh[a], c)] = v]
RECURSIVE SweepFrom(_, _, _, _)
SweepFrom(x, cl, dom, p) ==   \* x fastest; every point sees the points relaxed before it
  IF p = DomSize(dom) THEN x
  ELSE LET c == DomCoord(dom, p)
           y == IF cl.colour = 2 \/ Colour(cl, c) = cl.colour THEN TLCEval(Put(x, cl.u, c, Relaxed(x, cl, c))) ELSE x
       IN  SweepFrom(y, cl, dom, p + 1)
Sweep(x, cl) == SweepFrom(x, cl, BoxDom(cl.lo, cl.hi), 0)

\* ---- point blocks: one or two unknowns per cell
BlockJacobi1(x, cl) ==
  LET F(c) == Add(Get(x, cl.u, c), Mul(Weight(Len(cl.lo)), Div(Get(x, cl.f, c), Get(x, cl.d, c))))
  IN  Set(x, cl.u, cl.lo, cl.hi, F)
BlockJacobi2(x, cl) ==   \* d: the 2x2 matrix of the cell, by rows
  LET m(c, s) == St(x, cl.d, c, s)
      det(c) == Sub(Mul(m(c, 1), m(c, 4)), Mul(m(c, 2), m(c, 3)))
      f(q, c) == Get(x, cl.f2[q], c)
      x0(c) == Div(Sub(Mul(m(c, 4), f(1, c)), Mul(m(c, 2), f(2, c))), det(c))
      x1(c) == Div(Sub(Mul(m(c, 1), f(2, c)), Mul(m(c, 3), f(1, c))), det(c))
      F0(c) == Add(Get(x, cl.u2[1], c), Mul(Weight(Len(cl.lo)), x0(c)))
      F1(c) == Add(Get(x, cl.u2[2], c), Mul(Weight(Len(cl.lo)), x1(c)))
  IN  Set(Set(x, cl.u2[1], cl.lo, cl.hi, F0), cl.u2[2], cl.lo, cl.hi, F1)

\* ---- linear systems: A a sequence of rows, b the right-hand side
RECURSIVE Solve(_, _)
Solve(A, b) ==
  LET n == Len(A)
  IN  IF n = 0 THEN <<>>
      ELSE LET r == CHOOSE r \in 1..n : ~IsZero(A[r][1])
               ord == [q \in 1..(n - 1) |-> IF q < r THEN q ELSE q + 1]      \* the other rows
               fac(q) == Div(A[ord[q]][1], A[r][1])
               A2 == TLCEval([q \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> Sub(A[ord[q]][j + 1], Mul(fac(q), A[r][j + 1]))]])
               b2 == TLCEval([q \in 1..(n - 1) |-> Sub(b[ord[q]], Mul(fac(q), b[r]))])
               y == Solve(A2, b2)
               F(j) == Mul(A[r][j + 1], y[j])
           IN  << Div(Sub(b[r], SumF(F, 1, n - 1)), A[r][1]) >> \o y

(* box blocks (three dimensions): the residual of all cells is taken first; then *)
(* the blocks, of size bs, at displacements disp from the low corner are solved  *)
(* with the couplings inside each block only, and the damped result added        *)
BlockCoord(o, bs, p) == LET dom == BoxDom(o, [m \in 1..3 |-> o[m] + bs[m] - 1]) IN DomCoord(dom, p)
RECURSIVE BlocksFrom(_, _, _, _, _)
BlocksFrom(x0, x, cl, origins, q) ==
  IF q > Len(origins) THEN x
  ELSE LET n == cl.bs[1] * cl.bs[2] * cl.bs[3]
           at == TLCEval([p \in 1..n |-> BlockCoord(origins[q], cl.bs, p - 1)])
           Row(p) == LET hit(j) == {s \in 2..Len(cl.off) : Move(at[p], cl.off[s]) = at[j]}
                     IN  [j \in 1..n |->
                            IF hit(j) # {} THEN St(x0, cl.st, at[p], CHOOSE s \in hit(j) : TRUE)
                            ELSE IF j = p THEN St(x0, cl.st, at[p], 1) ELSE Zero]
           A == TLCEval([p \in 1..n |-> Row(p)])
           r == TLCEval([p \in 1..n |-> Sub(Get(x0, cl.f, at[p]), Couple(x0, cl, at[p], 1))])
           d == TLCEval(Solve(A, r))
           F[p \in 0..n] == IF p = 0 THEN x
                            ELSE Put(F[p - 1], cl.u, at[p], Add(Get(F[p - 1], cl.u, at[p]), Mul(Q(4, 5), d[p])))
       IN  BlocksFrom(x0, TLCEval(F[n]), cl, origins, q + 1)
BoxBlockJacobi(x, cl) ==
  LET xs == cl.disp[1]  ys == cl.disp[2]  zs == cl.disp[3]
      nb == Len(xs) * Len(ys) * Len(zs)
      origin(q) == << cl.lo[1] + xs[1 + (q % Len(xs))],
                      cl.lo[2] + ys[1 + ((q \div Len(xs)) % Len(ys))],
                      cl.lo[3] + zs[1 + (q \div (Len(xs) * Len(ys)))] >>
  IN  BlocksFrom(x, x, cl, [q \in 1..nb |-> origin(q - 1)], 1)

(* systems with ndof unknowns per cell (three dimensions), x fastest: the        *)
(* residual of a cell's equations, with what its neighbours hold by then, is      *)
(* solved with the cell's diagonal block, stored in r and added to u              *)
\* coefficient (row, column) of block s: st(s, row + (column - 1) * ndof), s fastest
Blk(x, cl, c, s, i, j) == St(x, cl.st, c, s + Len(cl.off) * ((i - 1) + (j - 1) * cl.ndof))
RECURSIVE SystemFrom(_, _, _, _)
SystemFrom(x, cl, dom, p) ==
  IF p = DomSize(dom) THEN x
  ELSE LET c == DomCoord(dom, p)
           nd == cl.ndof
           term(i, s) == LET F(j) == Mul(Blk(x, cl, c, s, i, j), St(x, cl.u, Move(c, cl.off[s]), j)) IN SumF(F, 1, nd)
           res(i) == LET F(s) == term(i, s) IN Sub(St(x, cl.f, c, i), SumF(F, 1, Len(cl.off)))
           d == TLCEval(Solve([i \in 1..nd |-> [j \in 1..nd |-> Blk(x, cl, c, 1, i, j)]], [i \in 1..nd |-> res(i)]))
           w(i) == [y \in DOMAIN c \cup {W} |-> IF y = W THEN i - 1 ELSE c[y]]
           F[i \in 0..nd] == IF i = 0 THEN x
                             ELSE LET y == F[i - 1]
                                  IN  Put(Put(y, cl.r, w(i), d[i]), cl.u, w(i), Add(Get(y, cl.u, w(i)), d[i]))
       IN  SystemFrom(TLCEval(F[nd]), cl, dom, p + 1)
SystemSweep(x, cl) == SystemFrom(x, cl, BoxDom(cl.lo, cl.hi), 0)

\* ---- node-centred operator: res = b f + a L u
NodeApply(x, cl) ==
  LET lu(c) == Add(Neg(Mul(cl.beta, Diverg(x, cl.fl, cl.dx, c))), Reaction(x, cl, c))
      F(c) == Add(Mul(cl.bb, Get(x, cl.f, c)), Mul(cl.aa, lu(c)))
  IN  Set(x, cl.out, cl.lo, cl.hi, F)
\* ---- ghosts on the line through the two cells inwards (three dimensions)
(* the segment is taken as given: a face at bLo (low) or bHi (high), an edge or  *)
(* a corner at bLo                                                              *)
Extrapolate(x, cl) ==
  LET f == cl.face
      c2 == [cl EXCEPT !.lo = cl.bLo, !.hi = cl.bHi]
      d == f \div 2
      s == IF f % 2 = 0 THEN 1 ELSE -1
      box == Only(c2, {d}, LAMBDA e : IF s = 1 THEN cl.bLo[e + 1] ELSE cl.bHi[e + 1])
      F(c) == Sub(Mul(N(2), Get(x, cl.u, Sh(c, d, s))), Get(x, cl.u, Sh(c, d, 2 * s)))
  IN  CASE cl.type = 1 /\ f \in 0..5 -> Set(x, cl.u, box.lo, box.hi, F)
        [] cl.type # 1 -> Bc(x, c2)
        [] OTHER -> x

ExecAll(x, cl) ==
  CASE cl.k = "stencil"  -> ApplyStencil(x, cl)
    [] cl.k = "sysrhs"   -> SystemRhs(x, cl)
    [] cl.k = "crsfine"  -> CrsFineRhs(x, cl)
    [] cl.k = "jacobi"   -> Jacobi(x, cl)
    [] cl.k = "sweep"    -> Sweep(x, cl)
    [] cl.k = "block1"   -> BlockJacobi1(x, cl)
    [] cl.k = "block2"   -> BlockJacobi2(x, cl)
    [] cl.k = "boxblock" -> BoxBlockJacobi(x, cl)
    [] cl.k = "system"   -> SystemSweep(x, cl)
    [] cl.k = "extrap"   -> Extrapolate(x, cl)
    [] cl.k = "nodeapply" -> NodeApply(x, cl)
    [] OTHER -> Exec(x, cl)
=============================================================================
