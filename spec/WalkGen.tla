------------------------------- MODULE WalkGen ------------------------------
(* Generates walks of the Cursor machine to drive through the real code.    *)
(* For a range of n elements:                                              *)
(*   Pairs(n)  every transition p -> q of the machine by one jump, with the *)
(*             start p reached by stepping and by jumping, followed by one  *)
(*             step each way (so hidden cursor state left by the jump is    *)
(*             observed too), looks and fresh copies around it;             *)
(*   Sweep(n)  up to the end and all the way back by single steps;          *)
(*   FarWalk   jumps across a range of very many elements;                  *)
(*   RowWalk   jumps onto the row starts of a long box;                     *)
(*   Random    TLC's own simulation of the machine (SEED fixes it).         *)
EXTENDS Cursor, Json, TLC, IOUtils, Randomization, FiniteSets, SequencesExt

Rep(op, k) == [m \in 1..k |-> op]
Sweep(n) == Rep(<<0, 0>>, n) \o Rep(<<1, 0>>, n) \o << <<2, n>> >> \o Rep(<<1, 0>>, n)

After(n, q) ==
  (IF q < n THEN << <<0, 0>>, <<1, 0>> >> ELSE <<>>) \o
  (IF q > 0 THEN << <<1, 0>>, <<0, 0>> >> ELSE <<>>)

Pair(n, p, q, stepping) ==
  (IF stepping THEN Rep(<<0, 0>>, p) ELSE << <<2, p>> >>) \o
  << <<3, 0>>, <<6, q - p>>, <<2, q - p>> >> \o After(n, q) \o
  (IF p < n THEN << <<5, p - q>> >> ELSE <<>>) \o
  << <<2, p - q>> >> \o After(n, p) \o << <<2, q - p>>, <<4, 0>> >>

Pairs(n) == [x \in 1..((n + 1) * (n + 1)) |->
               LET p == (x - 1) \div (n + 1)
                   q == (x - 1) % (n + 1)
               IN  Pair(n, p, q, (p + q) % 2 = 0)]

\* Deterministic pseudo-random walks: the machine's enabled operations are
\* picked by a linear congruential generator seeded with SEED.
LCG(s) == (s * 75 + 74) % 65537

Ops(n, c) ==
  (IF c.pos < n THEN << <<0, 0>> >> ELSE <<>>) \o
  (IF c.pos > 0 THEN << <<1, 0>> >> ELSE <<>>) \o
  [k \in 1..(n + 1) |-> <<2, k - 1 - c.pos>>] \o
  << <<3, 0>>, <<4, 0>> >> \o
  (IF n > 0 THEN << <<5, -c.pos>>, <<5, n - 1 - c.pos>>, <<6, n - c.pos>> >> ELSE <<>>)

RECURSIVE RandomWalk(_, _, _, _)
RandomWalk(n, c, s, len) ==
  IF len = 0 THEN <<>>
  ELSE LET ops == Ops(n, c)
           op  == ops[1 + (LCG(s) % Len(ops))]
       IN  << op >> \o RandomWalk(n, Step(c, op), LCG(LCG(s)), len - 1)

\* jumps onto the starts of rows of L elements, in scattered order, with a
\* step each way around every one of them
RowWalk(n, L) ==
  LET rows == n \div L
      m == IF rows < 30 THEN rows ELSE 30
      start(q) == L * (1 + ((q * 17) % rows))
      tgt == [q \in 1..(4 * m) |->
                LET a == start((q - 1) \div 4)
                IN  CASE q % 4 = 1 -> a
                      [] q % 4 = 2 -> a - 1
                      [] q % 4 = 3 -> a
                      [] q % 4 = 0 -> IF a < n THEN a + 1 ELSE a]
  IN  [q \in 1..(4 * m) |->
         LET d == tgt[q] - (IF q = 1 THEN 0 ELSE tgt[q - 1])
         IN  IF d = 1 THEN <<0, 0>> ELSE IF d = -1 THEN <<1, 0>> ELSE <<2, d>>]

\* jumps to scattered positions of a range of n > 5000 elements, or near its
\* ends, with looks at others and a step each way
RECURSIVE FarWalk(_, _, _, _)
FarWalk(n, p, s, len) ==
  IF len = 0 THEN << <<2, n - p>>, <<1, 0>>, <<0, 0>>, <<2, -n>> >>
  ELSE LET s1 == LCG(LCG(s))  s2 == LCG(s1)  g == n \div 65537 + 1
           any(x) == (x * g + (LCG(x) % g)) % n
           q == IF s1 % 9 = 0 THEN s2 % 3 ELSE IF s1 % 9 = 1 THEN n - 1 - (s2 % 3) ELSE any(s2)
           o == any(LCG(s2))
       IN  << <<5, o - p>>, <<6, q - p>>, <<2, q - p>>, <<0, 0>>, <<1, 0>>, <<5, o - q>> >>
           \o (IF q > 0 THEN << <<1, 0>>, <<0, 0>> >> ELSE <<>>)
           \o (IF s1 % 4 = 0 THEN << <<3, 0>> >> ELSE <<>>)
           \o FarWalk(n, q, LCG(s2), len - 1)

Far == 5000
Seed == atoi(IOEnv.SEED)
Walks(n, rows, pairs, rnd, len) ==
  IF n > Far THEN [r \in 1..(rnd + 2) |-> FarWalk(n, 0, (Seed * 7919 + n + 31 * r) % 65537, len)] ELSE
  << Sweep(n) >> \o (IF n <= pairs THEN Pairs(n) ELSE <<>>) \o
  [r \in 1..Len(rows) |-> RowWalk(n, rows[r])] \o
  [r \in 1..rnd |-> RandomWalk(n, Start, (Seed * 7919 + 104 * n + 31 * r) % 65537, len)]

Ns == JsonDeserialize(IOEnv.SIZES)    \* [[size, row lengths], pairs bound, random walks, length]
Gen == [k \in 1..Len(Ns[1]) |-> [n |-> Ns[1][k][1], rows |-> Ns[1][k][2],
           walks |-> Walks(Ns[1][k][1], Ns[1][k][2], Ns[2], Ns[3], Ns[4])]]
ASSUME JsonSerialize(IOEnv.OUT, Gen)

\* every generated walk is a behaviour of the machine
RECURSIVE Legal(_, _, _)
Legal(n, c, ws) == ws = <<>> \/ (Enabled(n, c, Head(ws)) /\ Legal(n, Step(c, Head(ws)), Tail(ws)))
ASSUME \A k \in 1..Len(Gen) : \A m \in 1..Len(Gen[k].walks) : Legal(Gen[k].n, Start, Gen[k].walks[m])
=============================================================================
