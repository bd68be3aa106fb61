-------------------------------- MODULE Num --------------------------------
(* The numbers the specification computes with.                            *)
(*                                                                         *)
(* Every formula of the solver kernels and of the expression language is a *)
(* rational function of its inputs, so the specification may be evaluated  *)
(* in any field:                                                           *)
(*   P = 0   exact rationals, kept normalised as <<num, den>> (den > 0);   *)
(*   P > 0   the prime field Z/P (P*P < 2^31, so TLC never overflows).     *)
(* Model checking of the specification itself uses P = 0; validation of    *)
(* recorded executions uses a prime: an equality of rationals implies the  *)
(* equality of their images in Z/P, so a correct execution is never        *)
(* rejected, and a wrong value slips through with probability 1/P.         *)
EXTENDS Integers, Sequences
CONSTANT P

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

LOCAL Norm(n, d) ==
  IF d = 1 THEN <<n, 1>>
  ELSE LET g == GCD(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN  <<s * (n \div g), (s * d) \div g>>

RECURSIVE PInv(_)
\* inverse modulo P by the recursion  a^-1 = -(P div a) * (P mod a)^-1
PInv(a) == IF a = 1 THEN 1 ELSE (((P - (P \div a)) % P) * PInv(P % a)) % P

\* the number n/d
Q(n, d) == IF P = 0 THEN Norm(n, d)
           ELSE IF d = 1 THEN n % P ELSE ((n % P) * PInv(d % P)) % P
N(n) == IF P = 0 THEN <<n, 1>> ELSE n % P
Zero == N(0)
One == N(1)

Add(a, b) ==
  IF P = 0
  THEN IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
       ELSE LET g == GCD(a[2], b[2])
            IN  Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
  ELSE (a + b) % P
Neg(a) == IF P = 0 THEN <<-a[1], a[2]>> ELSE (P - a) % P
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) ==
  IF P = 0
  THEN IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
       ELSE LET g == GCD(Abs(a[1]), b[2])
                h == GCD(Abs(b[1]), a[2])
            IN  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
  ELSE (a * b) % P
Inv(a) == IF P = 0 THEN Norm(a[2], a[1]) ELSE PInv(a)
Div(a, b) == Mul(a, Inv(b))
IsZero(a) == IF P = 0 THEN a[1] = 0 ELSE a = 0

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))

RECURSIVE SumF(_, _, _)
\* Sum_{i = lo}^{hi} F(i)
SumF(F(_), lo, hi) == IF hi < lo THEN Zero ELSE Add(F(lo), SumF(F, lo + 1, hi))
=============================================================================
