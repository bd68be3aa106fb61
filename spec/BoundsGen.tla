------------------------------ MODULE BoundsGen ------------------------------
(* Walks of the range algebra over four registers, to drive the real types.  *)
EXTENDS Bounds, Json, IOUtils, TLC
Seed == atoi(IOEnv.SEED)
Count0 == atoi(IOEnv.COUNT)
Len0 == atoi(IOEnv.LEN)
LCG(r) == LET x == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN  IF x > 0 THEN x ELSE x + 2147483647
Pk(r, k) == (LCG(r) \div 1000) % k
RECURSIVE Walk(_, _, _)
Walk(regs, r, len) ==
  IF len = 0 THEN <<>>
  ELSE LET r1 == LCG(LCG(r))  r2 == LCG(LCG(r1))  r3 == LCG(LCG(r2))  r4 == LCG(LCG(r3))
           c == Pk(r1, 10)
           t == Pk(r2, 4) + 1
           s == IF c \in {7, 8} THEN t ELSE Pk(r3, 4) + 1
           op == <<c, t, s, Pk(r4, 9) - 4>>
       IN  IF Lawful(Apply(op, regs[s])) THEN <<op>> \o Walk(Do(regs, op), r4, len - 1)
           ELSE Walk(regs, r4, len - 1)
Start(r) == [m \in 1..4 |-> LET q == LCG(r + 7919 * m)  lo == Pk(q, 13) - 6
                            IN  Range(lo, lo + Pk(LCG(LCG(q)), 12) - 1, 1 + Pk(LCG(LCG(LCG(q))), 5))]
Gen(m) == LET r == LCG(1 + (Seed % 2000) * 1000003 + m * 7919)
          IN  [init |-> Start(r), ops |-> Walk(Start(r), r, Len0)]
ASSUME JsonSerialize(IOEnv.OUT, [m \in 1..Count0 |-> Gen(m)])
=============================================================================
