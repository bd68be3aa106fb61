-------------------------------- MODULE HdGen --------------------------------
(* Histories of owning-array operations: all short ones over a small         *)
(* alphabet, and long pseudo-random ones.                                    *)
EXTENDS HostDevice, Json, IOUtils, TLC
Seed == atoi(IOEnv.SEED)
NRand == atoi(IOEnv.COUNT)
LenR == atoi(IOEnv.LEN)
Depth == atoi(IOEnv.DEPTH)
LCG(r) == LET x == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN  IF x > 0 THEN x ELSE x + 2147483647
Pk(r, k) == (LCG(r) \div 1000) % k
\* kinds: 0 double box, 1 offset table, 2 float window array; e1 x e2 elements
Rows(kind, e1, e2) == IF kind = 1 THEN e1 ELSE 0
Alphabet(kind, e1, e2, v) ==
  << <<0, 0, 0, 1, v>>, <<10, 0, 0, 0, v + 100>>, <<1, 0, 0, 0, 0>>, <<2, 0, 0, 0, 0>>, <<3, 0, 0, 0, 0>>,
     <<4, 0, 1, 0, 1>>, <<6, 0, 1, 0, 0>>, <<7, 1, 0, 0, 0>>, <<8, 0, 0, 0, 0>>, <<0, 1, 0, 2, v + 7>> >>
  \o (IF kind = 1 THEN << <<5, 0, 0, 1, v + 50>>, <<5, 0, 0, e1 - 1, v + 60>> >> ELSE <<>>)
\* every history ends by reading each array both ways
Final(b) == IF b THEN << <<2, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<3, 1, 0, 0, 0>>, <<9, 0, 0, 0, 0>> >>
            ELSE << <<1, 0, 0, 0, 0>>, <<3, 0, 0, 0, 0>>, <<1, 1, 0, 0, 0>>, <<2, 1, 0, 0, 0>> >>
RECURSIVE Digits(_, _, _)
Digits(q, base, len) == IF len = 0 THEN <<>> ELSE <<1 + (q % base)>> \o Digits(q \div base, base, len - 1)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
AllShort(kind, e1, e2) ==
  LET n == Len(Alphabet(kind, e1, e2, 0))
  IN  [q \in 1..Power(n, Depth) |->
         LET ds == Digits(q - 1, n, Depth)
         IN  [kind |-> kind, e1 |-> e1, e2 |-> e2,
              ops |-> [m \in 1..Depth |-> Alphabet(kind, e1, e2, 10 * m)[ds[m]]] \o Final(q % 2 = 0)]]
RECURSIVE RandOps(_, _, _, _, _)
RandOps(kind, e1, e2, r, len) ==
  IF len = 0 THEN <<>>
  ELSE LET r1 == LCG(LCG(r))  r2 == LCG(LCG(r1))  r3 == LCG(LCG(r2))  r4 == LCG(LCG(r3))
           c0 == Pk(r1, 12)
           c == IF c0 = 5 /\ kind # 1 THEN 0 ELSE c0
           y == Pk(LCG(r2), 3)
           k == CASE c = 4 -> (CASE y = 1 -> 0 [] y = 2 -> Pk(r3, 30) - 28 [] OTHER -> Pk(r3, 60) - 40) [] c = 0 -> Pk(r3, e1 * e2) [] c = 5 -> Pk(r3, e1) [] OTHER -> 0
           v == CASE c = 4 -> (IF y # 0 THEN 1 ELSE k + Pk(r4, 50)) [] OTHER -> Pk(r4, 1000) - 500
       IN  << <<c, Pk(r2, 3), y, k, v>> >> \o RandOps(kind, e1, e2, r4, len - 1)
Rand(m) == LET r == LCG(1 + (Seed % 2000) * 1000003 + m * 7919)
               kind == m % 3  e1 == 3 + Pk(r, 3)  e2 == IF kind = 1 THEN 1 + Pk(LCG(r), 3) ELSE 3 + Pk(LCG(r), 2)
           IN  [kind |-> kind, e1 |-> e1, e2 |-> e2,
                ops |-> RandOps(kind, e1, e2, r, LenR) \o Final(m % 2 = 0)]
ASSUME JsonSerialize(IOEnv.OUT, AllShort(0, 3, 3) \o AllShort(1, 3, 2) \o [m \in 1..NRand |-> Rand(m)])
=============================================================================
