------------------------------- MODULE Kernels -------------------------------
(* The solver kernels as a state machine over the caller's arrays.          *)
(*                                                                          *)
(* State: mem, a function from array names to the sequences of their         *)
(* elements.  What an array is, is fixed by its declaration                  *)
(*   [kind, dir, lo, hi, g]                                                  *)
(* kind "cell" (cells of the box lo..hi), "face" (the faces of that box       *)
(* normal to axis dir), "win" (a window of coefficients per cell, decl.nw of  *)
(* them if given, else a centre and its 2 n neighbours); g: ghost width.      *)
(* Axes are numbered 0 (x), 1 (y), 2 (z); boxes are sequences in x, y, z      *)
(* order.  The dimension is the length of lo.                                 *)
(*                                                                          *)
(* A transition is one kernel call, a record [k, ...arguments]; Exec gives    *)
(* the memory after it.  Every call is a function of the current contents     *)
(* and changes only the array(s) it produces.                                *)
EXTENDS Grid, Num, TLC

AxOf(d) == 2 - d
DirOf(ax) == 2 - ax

\* ---- layout
CellOrd(n) == CASE n = 1 -> <<I>> [] n = 2 -> <<J, I>> [] n = 3 -> <<K, J, I>>
FaceOrd(n, d) == CASE n = 1 -> <<I>>
                   [] n = 2 -> (IF d = 0 THEN <<J, I>> ELSE <<I, J>>)
                   [] n = 3 -> (CASE d = 0 -> <<K, J, I>> [] d = 1 -> <<I, K, J>> [] d = 2 -> <<J, I, K>>)
ShapeOf(decl) ==
  LET n == Len(decl.lo)
      o == IF decl.kind = "face" THEN FaceOrd(n, decl.dir)
           ELSE IF decl.kind = "win" THEN Append(CellOrd(n), W) ELSE CellOrd(n)
      lo(a) == IF a = W THEN 0 ELSE decl.lo[DirOf(a) + 1] - decl.g
      hi(a) == IF a = W THEN (IF "nw" \in DOMAIN decl THEN decl.nw - 1 ELSE 2 * n)
               ELSE decl.hi[DirOf(a) + 1] + decl.g + (IF decl.kind = "face" /\ DirOf(a) = decl.dir THEN 1 ELSE 0)
  IN  [ord |-> o, lo |-> [m \in 1..Len(o) |-> lo(o[m])], hi |-> [m \in 1..Len(o) |-> hi(o[m])]]

\* ---- access; reading outside an array is an error of the caller
Get(x, a, c) == IF InShape(x.sh[a], c) THEN x.mem[a][Addr(x.sh[a], c)]
                ELSE Assert(FALSE, <<"read outside", a, c>>)
Win(x, a, c) == LET sh == x.sh[a]  n == sh.hi[Len(sh.ord)]
                IN  TLCEval([w \in 1..(n + 1) |-> Get(x, a, [y \in DOMAIN c \cup {W} |-> IF y = W THEN w - 1 ELSE c[y]])])
Sh(c, d, k) == Shift(c, AxOf(d), k)

BoxDom(lo, hi) == TLCEval([m \in 1..Len(lo) |-> [ax |-> AxOf(Len(lo) - m), lo |-> lo[Len(lo) + 1 - m],
                                                 hi |-> hi[Len(lo) + 1 - m], st |-> 1]])
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b

\* every point of the box gets F; the box must lie inside the array
Set(x, a, lo, hi, F(_)) ==
  LET dom == BoxDom(lo, hi)
      n == Len(x.mem[a])
  IN  [x EXCEPT !.mem[a] = TLCEval([q \in 1..n |-> LET c == CoordOf(x.sh[a], q)
                                                   IN  IF InDom(dom, c) THEN F(c) ELSE x.mem[a][q]])]
\* every window of the box becomes F(point, window)
SetWin(x, a, lo, hi, F(_, _)) ==
  LET dom == BoxDom(lo, hi)
      n == Len(x.mem[a])
  IN  [x EXCEPT !.mem[a] = TLCEval([q \in 1..n |-> LET c == CoordOf(x.sh[a], q)
                                                       p == TLCEval([y \in DOMAIN c \ {W} |-> c[y]])
                                                   IN  IF InDom(dom, p) THEN F(p, Win(x, a, p))[c[W] + 1] ELSE x.mem[a][q]])]

\* ---- operator and residual kernels
Diverg(x, fl, dx, c) ==
  LET F(d) == Div(Sub(Get(x, fl[d], Sh(c, d - 1, 1)), Get(x, fl[d], c)), dx[d])
  IN  SumF(F, 1, Len(fl))
Reaction(x, cl, c) ==
  CASE cl.react = "v1"   -> Mul(Mul(cl.alpha, Get(x, cl.a, c)), Get(x, cl.u, c))
    [] cl.react = "v2"   -> Mul(cl.alpha, Get(x, cl.u, c))
    [] cl.react = "none" -> Zero
Apply(x, cl) ==
  LET dv(c) == Mul(cl.beta, Diverg(x, cl.fl, cl.dx, c))
      F(c) == IF cl.form = "res" THEN Sub(Add(Get(x, cl.f, c), dv(c)), Reaction(x, cl, c))
              ELSE Add(Neg(dv(c)), Reaction(x, cl, c))
  IN  Set(x, cl.out, cl.lo, cl.hi, F)

\* ---- flux kernels
FaceHi(cl, d) == [m \in 1..Len(cl.hi) |-> IF m = d THEN cl.hi[m] + 1 ELSE cl.hi[m]]
RECURSIVE FluxFrom(_, _, _)
FluxFrom(x, cl, d) ==
  IF d > Len(cl.lo) THEN x
  ELSE LET g(c) == Div(Sub(Get(x, cl.u, c), Get(x, cl.u, Sh(c, d - 1, -1))), cl.dx[d])
           F(c) == IF cl.coef THEN Mul(Get(x, cl.b[d], c), g(c)) ELSE g(c)
       IN  FluxFrom(Set(x, cl.fl[d], cl.lo, FaceHi(cl, d), F), cl, d + 1)
Flux(x, cl) == FluxFrom(x, cl, 1)

\* ---- boundary kernels
(* the segment of a face: the ghost line at bLo (low faces) or bHi (high      *)
(* faces), the other axes limited to the box                                 *)
Only(cl, S, pos(_)) ==   \* the box that is pos(d) on the axes in S and clamped on the others
  [lo |-> [m \in 1..Len(cl.lo) |-> IF m - 1 \in S THEN pos(m - 1) ELSE Max(cl.bLo[m], cl.lo[m])],
   hi |-> [m \in 1..Len(cl.lo) |-> IF m - 1 \in S THEN pos(m - 1) ELSE Min(cl.bHi[m], cl.hi[m])]]

\* extrapolation of one ghost from u1, u2 (inward), coefficient b, spacing h;
\* <<>> when the combination is not defined
Extrap(cl, u1(_), u2(_), b(_), h, c) ==
  LET al == cl.alpha  be == cl.beta
      two == N(2)
      third == Q(1, 3)
  IN  CASE cl.btype = 0 /\ cl.ord = 0 /\ cl.zero  -> <<Zero>>
        [] cl.btype = 0 /\ cl.ord = 1 -> <<Neg(u1(c))>>
        [] cl.btype = 0 /\ cl.ord = 2 -> <<Add(Mul(N(-2), u1(c)), Mul(third, u2(c)))>>
        [] cl.btype = 1              -> <<u1(c)>>
        [] cl.btype = 4 /\ cl.ord = 1 ->
             LET p == Mul(Mul(two, al), b(c))  q == Mul(h, be)
             IN  <<Mul(Div(Sub(p, q), Add(p, q)), u1(c))>>
        [] cl.btype = 4 /\ cl.ord = 2 ->
             LET p == Mul(Mul(N(8), al), b(c))  q == Mul(h, be)
                 den == Add(p, Mul(N(3), q))
             IN  <<Add(Mul(Div(Sub(p, Mul(N(6), q)), den), u1(c)), Mul(Div(q, den), u2(c)))>>
        [] OTHER -> <<>>
Defined(cl) == \/ (cl.btype = 0 /\ (cl.ord \in {1, 2} \/ (cl.ord = 0 /\ cl.zero)))
               \/ cl.btype = 1
               \/ (cl.btype = 4 /\ cl.ord \in {1, 2})

\* one side: fill the segment of face f
Side(x, cl) ==
  LET d == cl.face \div 2
      low == cl.face % 2 = 0
      s == IF low THEN 1 ELSE -1
      box == Only(cl, {d}, LAMBDA e : IF low THEN cl.bLo[e + 1] ELSE cl.bHi[e + 1])
      u1(c) == Get(x, cl.u, Sh(c, d, s))
      u2(c) == Get(x, cl.u, Sh(c, d, 2 * s))
      b(c) == IF cl.coef THEN Get(x, cl.d[d + 1], IF low THEN Sh(c, d, 1) ELSE c) ELSE One
      F(c) == Extrap(cl, u1, u2, b, cl.dx[d + 1], c)[1]
  IN  IF Defined(cl) THEN Set(x, cl.u, box.lo, box.hi, F) ELSE x

\* a corner or edge between axes d1, d2 with inward signs s1, s2
Corner(x, cl, d1, d2, s1, s2, box) ==
  LET F(c) == Sub(Add(Get(x, cl.u, Sh(c, d1, s1)), Get(x, cl.u, Sh(c, d2, s2))),
                  Get(x, cl.u, Sh(Sh(c, d1, s1), d2, s2)))
  IN  Set(x, cl.u, box.lo, box.hi, F)
Sign(f, bit) == IF (f \div (IF bit = 0 THEN 1 ELSE 2)) % 2 = 0 THEN 1 ELSE -1

Bc(x, cl) ==
  LET n == Len(cl.lo)
      f == cl.face
      lows(d) == cl.bLo[d + 1]
      \* in two dimensions a corner of a high side is at bHi
      cornr(d) == IF Sign(f, d) = 1 THEN cl.bLo[d + 1] ELSE cl.bHi[d + 1]
  IN  CASE cl.type = 1 /\ f \in 0..(2 * n - 1) ->
             IF n = 2 /\ ~cl.coef /\ cl.btype = 4 /\ f \in {2, 3} THEN x ELSE Side(x, cl)
        [] cl.type = 2 /\ n = 2 /\ f \in 0..3 ->
             Corner(x, cl, 0, 1, Sign(f, 0), Sign(f, 1), Only(cl, {0, 1}, cornr))
        [] cl.type = 2 /\ n = 3 /\ f \in 0..11 ->
             LET pr == CASE f \div 4 = 0 -> <<0, 1>> [] f \div 4 = 1 -> <<0, 2>> [] f \div 4 = 2 -> <<1, 2>>
             IN  Corner(x, cl, pr[1], pr[2], Sign(f, 0), Sign(f, 1), Only(cl, {pr[1], pr[2]}, lows))
        [] cl.type = 3 /\ n = 3 /\ f \in 0..7 ->
             Corner(x, cl, 0, 1, Sign(f, 0), Sign(f, 1), Only(cl, {0, 1, 2}, lows))
        [] OTHER -> x

InteriorCorner(x, cl) ==   \* two dimensions
  LET f == cl.face
      cornr(d) == IF Sign(f, d) = 1 THEN cl.bLo[d + 1] ELSE cl.bHi[d + 1]
      box == Only(cl, {0, 1}, cornr)
      F(c) == Mul(N(-5), Get(x, cl.u, Sh(Sh(c, 0, Sign(f, 0)), 1, Sign(f, 1))))
  IN  IF f \in 0..3 THEN Set(x, cl.u, box.lo, box.hi, F) ELSE x

\* polynomial extrapolation of orders 1..4 of a quantity that vanishes on the face
Homog(x, cl, c, d, s) ==
  LET u(k) == Get(x, cl.u, Sh(c, d, k * s))
  IN  CASE cl.ord = 1 -> Neg(u(1))
        [] cl.ord = 2 -> Add(Mul(N(-2), u(1)), Mul(Q(1, 3), u(2)))
        [] cl.ord = 3 -> Sub(Add(Mul(N(-3), u(1)), u(2)), Mul(Q(1, 5), u(3)))
        [] cl.ord = 4 -> Add(Sub(Add(Mul(N(-4), u(1)), Mul(N(2), u(2))), Mul(Q(4, 5), u(3))), Mul(Q(1, 7), u(4)))
Homogenous(x, cl) ==
  LET f == cl.face
      d == f \div 2
      s == IF f % 2 = 0 THEN 1 ELSE -1
      ghost(e, sg) == IF sg = 1 THEN cl.lo[e + 1] - 1 ELSE cl.hi[e + 1] + 1
      seg == Only(cl, {d}, LAMBDA e : ghost(e, s))
      F(c) == Homog(x, cl, c, d, s)
      x1 == IF cl.ord \in 1..4 THEN Set(x, cl.u, seg.lo, seg.hi, F) ELSE x
      o == 1 - d
      At1(y, so) ==    \* the corner on side so of the other axis: the diagonal interior cell
        LET pos == [m \in 1..2 |-> IF m - 1 = d THEN ghost(d, s) ELSE ghost(o, so)]
            G(c) == Get(y, cl.u, Sh(Sh(c, d, s), o, so))
        IN  Set(y, cl.u, pos, pos, G)
  IN  IF f \in 0..3 THEN At1(At1(x1, 1), -1) ELSE x

\* ---- stencil assembly
FaceB(x, cl, d, c, up) == Get(x, cl.b[d], IF up THEN Sh(c, d - 1, 1) ELSE c)
Off(cl, d) == Neg(Div(cl.beta, Mul(cl.dx[d], cl.dx[d])))
OffDiag(x, cl) ==
  LET F(c, w) == [m \in 1..Len(w) |->
                    IF m = 1 THEN w[1]
                    ELSE LET d == m \div 2
                         IN  IF cl.coef THEN Mul(Off(cl, d), FaceB(x, cl, d, c, m % 2 = 1)) ELSE Off(cl, d)]
  IN  SetWin(x, cl.st, cl.lo, cl.hi, F)
Diag(x, cl) ==
  LET re(c) == CASE cl.react = "v1"   -> Mul(cl.alpha, Get(x, cl.a, c))
                 [] cl.react = "v2"   -> cl.alpha
                 [] cl.react = "none" -> Zero
      F(c, w) == [w EXCEPT ![1] = Add(Neg(SumSeq(Tail(w))), re(c))]
  IN  SetWin(x, cl.st, cl.lo, cl.hi, F)

\* ---- adjustments at a boundary segment p of side cl.side in direction cl.dir
(* p is the line of ghost cells beyond the boundary; the cells adjoining it    *)
(* are one step inwards                                                      *)
Inner(cl) == cl.pLo[cl.dir + 1] - 2 * cl.side + 1
Layer(cl, at) == [lo |-> [m \in 1..Len(cl.pLo) |-> IF m - 1 = cl.dir THEN at ELSE cl.pLo[m]],
                  hi |-> [m \in 1..Len(cl.pLo) |-> IF m - 1 = cl.dir THEN at ELSE cl.pHi[m]]]
EntryU(cl) == 2 * cl.dir + 1 + cl.side + 1      \* 1-based: the neighbour beyond the boundary
EntryV(cl) == 2 * cl.dir + 2 - cl.side + 1      \* the opposite neighbour
BdryB(x, cl, c) == IF cl.coef THEN Get(x, cl.b[cl.dir + 1], Sh(c, cl.dir, cl.side)) ELSE One
RobinSide(cl) == Len(cl.pLo) # 2 \/ cl.dir = 0   \* two dimensions: x sides only

AdjDiag(x, cl) ==
  LET n == Len(cl.pLo)
      h == cl.dx[cl.dir + 1]
      rob(c, w) == LET b == BdryB(x, cl, c)
                   IN  [w EXCEPT ![1] = Sub(@, Div(Mul(cl.beta, b), Mul(h, Add(Mul(N(3), h), Mul(N(16), b)))))]
      dir(c, w) == [w EXCEPT ![1] = Add(@, Mul(Div(cl.beta, Mul(N(3), Mul(h, h))), BdryB(x, cl, c)))]
      here == Layer(cl, Inner(cl))
  IN  IF cl.ord # 2 THEN x
      ELSE IF cl.btype = 4 /\ RobinSide(cl) THEN SetWin(x, cl.st, here.lo, here.hi, rob)
      ELSE IF cl.btype = 0 /\ ((cl.coef /\ n > 1) \/ (~cl.coef /\ n = 3)) THEN SetWin(x, cl.st, here.lo, here.hi, dir)
      ELSE x

AdjCfDiag(x, cl) ==
  LET h == cl.dx[cl.dir + 1]
      f == Div(cl.beta, Mul(h, h))
      fac == IF cl.ord = 1 THEN Q(1, 3) ELSE Q(2 * (cl.r - 1), cl.r + 1)
      here == Layer(cl, Inner(cl))
      F(c, w) == [w EXCEPT ![1] = Sub(@, Mul(Mul(f, fac), BdryB(x, cl, c)))]
  IN  IF cl.ord \in {1, 2} THEN SetWin(x, cl.st, here.lo, here.hi, F) ELSE x

AdjOffDiag(x, cl) ==
  LET h == cl.dx[cl.dir + 1]
      U == EntryU(cl)  V == EntryV(cl)
      here == Layer(cl, Inner(cl))
      f(c) == LET b == BdryB(x, cl, c)
              IN  Div(Mul(cl.beta, b), Mul(h, Add(Mul(N(3), h), Mul(N(16), b))))
      F(c, w) ==
        CASE cl.btype = 4 /\ cl.ord = 1 -> [w EXCEPT ![U] = Mul(@, Div(Mul(N(2), h), Add(Mul(N(4), BdryB(x, cl, c)), h)))]
          [] cl.btype = 4 /\ cl.ord = 2 -> [w EXCEPT ![U] = Mul(N(-9), f(c)), ![V] = Sub(@, f(c))]
          [] cl.btype = 0 /\ cl.ord = 1 -> [w EXCEPT ![U] = Mul(@, cl.dirf)]
          [] cl.btype = 0 /\ cl.ord = 2 -> [w EXCEPT ![V] = Add(@, Mul(Q(1, 3), w[U])), ![U] = Mul(@, Q(8, 3))]
          [] cl.btype = 1              -> [w EXCEPT ![U] = Zero]
          [] OTHER -> w
  IN  IF cl.btype = 4 /\ ~RobinSide(cl) THEN x ELSE SetWin(x, cl.st, here.lo, here.hi, F)

AdjCfOffDiag(x, cl) ==
  LET U == EntryU(cl)  V == EntryV(cl)  r == cl.r
      here == Layer(cl, Inner(cl))
      F(c, w) ==
        CASE cl.ord = 1 -> [w EXCEPT ![U] = Mul(@, Q(2, 3))]
          [] cl.ord = 2 -> [w EXCEPT ![V] = Sub(@, Mul(w[U], Q(r - 1, r + 3))), ![U] = Mul(@, Q(8, (r + 1) * (r + 3)))]
          [] OTHER -> w
  IN  SetWin(x, cl.st, here.lo, here.hi, F)

ReadjOffDiag(x, cl) ==
  LET here == Layer(cl, Inner(cl))
      F(c, w) == [w EXCEPT ![EntryU(cl)] = Zero]
  IN  SetWin(x, cl.st, here.lo, here.hi, F)

AdjCfBdryRhs(x, cl) ==
  LET here == Layer(cl, Inner(cl))
      F(c) == Sub(Get(x, cl.rhs, c), Mul(Win(x, cl.st, c)[EntryU(cl)], Get(x, cl.u, Sh(c, cl.dir, 2 * cl.side - 1))))
  IN  Set(x, cl.rhs, here.lo, here.hi, F)

\* ---- coarse to fine (three dimensions): a line of fine cells along one axis
CopyLine(x, cl) ==
  LET ax == cl.axis
      hi == [m \in 1..3 |-> IF m - 1 = ax THEN cl.fHi[m] ELSE cl.fLo[m]]
      F(c) == LET f == c[AxOf(ax)]
                  at(a) == IF DirOf(a) = ax THEN f \div cl.ratio[ax + 1] ELSE cl.cLo[DirOf(a) + 1]
              IN  Get(x, cl.c, [a \in {K, J, I} |-> at(a)])
  IN  IF ax \in 0..2 THEN Set(x, cl.f, cl.fLo, hi, F) ELSE x
CopyCorner(x, cl) ==
  LET F(c) == Get(x, cl.c, [a \in {K, J, I} |-> cl.cLo[DirOf(a) + 1]])
  IN  Set(x, cl.f, cl.fLo, cl.fLo, F)

\* ---- one call
Exec(x, cl) ==
  CASE cl.k = "apply"   -> Apply(x, cl)
    [] cl.k = "flux"    -> Flux(x, cl)
    [] cl.k = "bc"      -> Bc(x, cl)
    [] cl.k = "corner"  -> InteriorCorner(x, cl)
    [] cl.k = "homog"   -> Homogenous(x, cl)
    [] cl.k = "offdiag" -> OffDiag(x, cl)
    [] cl.k = "diag"    -> Diag(x, cl)
    [] cl.k = "adjdiag" -> AdjDiag(x, cl)
    [] cl.k = "adjcfdiag" -> AdjCfDiag(x, cl)
    [] cl.k = "adjoff"  -> AdjOffDiag(x, cl)
    [] cl.k = "adjcfoff" -> AdjCfOffDiag(x, cl)
    [] cl.k = "readj"   -> ReadjOffDiag(x, cl)
    [] cl.k = "bdryrhs" -> AdjCfBdryRhs(x, cl)
    [] cl.k = "copy"    -> CopyLine(x, cl)
    [] cl.k = "copycorner" -> CopyCorner(x, cl)
    [] cl.k = "load"    -> [x EXCEPT !.mem[cl.a] = cl.v]
=============================================================================
