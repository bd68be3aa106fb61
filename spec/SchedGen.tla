------------------------------ MODULE SchedGen ------------------------------
(* Schedules to impose on the real drivers: how many workers, how the points  *)
(* are dealt to them, whether a worker walks its cursor or jumps, whether      *)
(* reads and writes of a point are separate steps, and who moves next.         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
LCG(r) == LET x == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN  IF x > 0 THEN x ELSE x + 2147483647
Pk(r, k) == (LCG(r) \div 1000) % k
RECURSIVE Picks(_, _, _)
Picks(r, w, n) == IF n = 0 THEN <<>> ELSE <<Pk(r, w)>> \o Picks(LCG(LCG(r)), w, n - 1)
\* the regular ones: every way of dealing, walking and splitting, with the
\* workers running one after the other, in turn, or last worker first
Runs(w, len) == [m \in 1..(w * len) |-> w - 1 - ((m - 1) \div len)]
Turn(w) == [m \in 1..w |-> m - 1]
Back(w) == [m \in 1..w |-> w - m]
Regular == [q \in 1..180 |->
   LET x == q - 1
       w == 1 + (x % 3)  d == (x \div 3) % 5  k == (x \div 15) % 2  s == (x \div 30) % 2  o == (x \div 60) % 3
   IN  [workers |-> IF w = 3 THEN 5 ELSE w, deal |-> d, walk |-> k, split |-> s,
        picks |-> LET u == IF w = 3 THEN 5 ELSE w
                  IN  CASE o = 0 -> Runs(u, 40) [] o = 1 -> Turn(u) [] OTHER -> Back(u)]]
Rand(m) == LET r == LCG(LCG(1 + (Seed % 2000) * 1000003 + m * 7919))
               w == 1 + Pk(r, 8)
           IN  [workers |-> w, deal |-> Pk(LCG(r), 5), walk |-> Pk(LCG(LCG(r)), 2), split |-> Pk(LCG(LCG(LCG(r))), 2),
                picks |-> Picks(LCG(r + 17), w, 60)]
ASSUME JsonSerialize(IOEnv.OUT, Regular \o [m \in 1..Count |-> Rand(m)])
=============================================================================
