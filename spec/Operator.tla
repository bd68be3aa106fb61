------------------------------- MODULE Operator -------------------------------
(* The discrete operator in its two forms, and what relates them.             *)
(*                                                                            *)
(* A run works on fixed arrays: u, a, f, face coefficients b, fluxes fl, and   *)
(* produces                                                                   *)
(*   ap   the operator applied through fluxes and divergence                   *)
(*   ap0  the same without the reaction term                                   *)
(*   re   the residual                                                         *)
(*   st   the assembled stencil of ap,   row  the assembled stencil of ap0      *)
(* p = [lo, hi, dx, alpha, beta, react, coef] are the arguments all its calls  *)
(* share.  Steps may be taken in any order that respects After, and repeated.  *)
EXTENDS Kernels, FiniteSets

Steps == {"flux", "ap", "ap0", "re", "off", "diag", "off0", "diag0"}
After(s) == CASE s \in {"ap", "ap0", "re"} -> {"flux"} [] s = "diag" -> {"off"} [] s = "diag0" -> {"off0"}
              [] OTHER -> {}
Names(pre, n) == [d \in 1..n |-> pre \o ToString(d - 1)]
CallOf(p, s) ==
  LET n == Len(p.lo)
      b == Names("b", n)  fl == Names("fl", n)
      Ap(form, re, out) == [k |-> "apply", form |-> form, react |-> re, a |-> "a", u |-> "u", f |-> "f", fl |-> fl, out |-> out,
                            lo |-> p.lo, hi |-> p.hi, dx |-> p.dx, alpha |-> p.alpha, beta |-> p.beta]
      Of(st) == [k |-> "offdiag", coef |-> p.coef, b |-> b, st |-> st, lo |-> p.lo, hi |-> p.hi, dx |-> p.dx, beta |-> p.beta]
      Di(st, re) == [k |-> "diag", react |-> re, a |-> "a", st |-> st, lo |-> p.lo, hi |-> p.hi, alpha |-> p.alpha]
  IN  CASE s = "flux" -> [k |-> "flux", coef |-> p.coef, u |-> "u", b |-> b, fl |-> fl, lo |-> p.lo, hi |-> p.hi, dx |-> p.dx]
        [] s = "ap"   -> Ap("apply", p.react, "ap")
        [] s = "ap0"  -> Ap("apply", "none", "ap0")
        [] s = "re"   -> Ap("res", p.react, "re")
        [] s = "off"  -> Of("st")
        [] s = "off0" -> Of("row")
        [] s = "diag" -> Di("st", p.react)
        [] s = "diag0" -> Di("row", "none")

\* ---- the laws, over the contents of the arrays only
Cells(p) == LET dom == BoxDom(p.lo, p.hi) IN TLCEval([q \in 1..DomSize(dom) |-> DomCoord(dom, q - 1)])
Nbr(c, w) == IF w = 1 THEN c ELSE Shift(c, AxOf((w \div 2) - 1), IF w % 2 = 0 THEN -1 ELSE 1)
All(p, F(_)) == LET cs == Cells(p) IN \A q \in 1..Len(cs) : F(cs[q])

SameOperator(x, p) ==   \* matrix-free form = assembled form
  All(p, LAMBDA c : LET w == Win(x, "st", c)
                        T(m) == Mul(w[m], Get(x, "u", Nbr(c, m)))
                    IN  Get(x, "ap", c) = SumF(T, 1, Len(w)))
SameOperator0(x, p) ==
  All(p, LAMBDA c : LET w == Win(x, "row", c)
                        T(m) == Mul(w[m], Get(x, "u", Nbr(c, m)))
                    IN  Get(x, "ap0", c) = SumF(T, 1, Len(w)))
Residual(x, p) == All(p, LAMBDA c : Get(x, "re", c) = Sub(Get(x, "f", c), Get(x, "ap", c)))
RowSums(x, p) == All(p, LAMBDA c : IsZero(SumSeq(Win(x, "row", c))))
Symmetric(x, p, st) ==
  All(p, LAMBDA c : \A d \in 1..Len(p.lo) :
        LET e == Sh(c, d - 1, 1)
        IN  e[AxOf(d - 1)] <= p.hi[d] => Win(x, st, c)[2 * d + 1] = Win(x, st, e)[2 * d])
ReactionTerm(x, p) ==   \* what the reaction adds is on the diagonal only
  All(p, LAMBDA c : LET w == Win(x, "st", c)  v == Win(x, "row", c)
                    IN  /\ Tail(w) = Tail(v)
                        /\ Sub(w[1], v[1]) = (CASE p.react = "v1" -> Mul(p.alpha, Get(x, "a", c))
                                                [] p.react = "v2" -> p.alpha [] p.react = "none" -> Zero))
\* the sum over the box of the divergence is the net flux through its faces
Net(x, p) ==
  LET cs == Cells(p)
      n == Len(p.lo)
      BSide(d, hi) ==
        LET T(q) == IF cs[q][AxOf(d - 1)] = (IF hi THEN p.hi[d] ELSE p.lo[d])
                    THEN Get(x, "fl" \o ToString(d - 1), Sh(cs[q], d - 1, IF hi THEN 1 ELSE 0)) ELSE Zero
        IN  SumF(T, 1, Len(cs))
      F(d) == Div(Sub(BSide(d, TRUE), BSide(d, FALSE)), p.dx[d])
  IN  SumF(F, 1, n)
Divergence(x, p) ==
  LET cs == Cells(p)  T(q) == Get(x, "ap0", cs[q])
  IN  SumF(T, 1, Len(cs)) = Neg(Mul(p.beta, Net(x, p)))

\* <<name of the law, holds>>, for the steps that are done
Laws(x, p, done) ==
  << <<"matrix-free = assembled", {"ap", "diag"} \subseteq done => SameOperator(x, p)>>,
     <<"matrix-free = assembled, no reaction", {"ap0", "diag0"} \subseteq done => SameOperator0(x, p)>>,
     <<"residual = right-hand side - operator", {"re", "ap"} \subseteq done => Residual(x, p)>>,
     <<"rows sum to zero", "diag0" \in done => RowSums(x, p)>>,
     <<"neighbouring off-diagonals agree", "off" \in done => Symmetric(x, p, "st")>>,
     <<"neighbouring off-diagonals agree, no reaction", "off0" \in done => Symmetric(x, p, "row")>>,
     <<"reaction is on the diagonal", {"diag", "diag0"} \subseteq done => ReactionTerm(x, p)>>,
     <<"divergence = net flux", "ap0" \in done => Divergence(x, p)>> >>
Broken(x, p, done) == SelectSeq(Laws(x, p, done), LAMBDA l : ~l[2])
=============================================================================
