-------------------------------- MODULE LawGen --------------------------------
(* Runs of Operator.tla: for every dimension, reaction variant and coefficient  *)
(* kind, orders of the steps (with repetitions) drawn by a seeded walk.          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT P
O == INSTANCE Operator
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
LCG(r) == LET y == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN  IF y > 0 THEN y ELSE y + 2147483647
StepSeq == <<"flux", "ap", "ap0", "re", "off", "diag", "off0", "diag0">>
RECURSIVE Walk(_, _, _)
Walk(done, r, acc) ==
  IF done = O!Steps THEN acc
  ELSE LET en == SelectSeq(StepSeq, LAMBDA s : O!After(s) \subseteq done)
           fresh == SelectSeq(en, LAMBDA s : s \notin done)
           pool == IF (r \div 7) % 5 = 0 THEN en ELSE fresh
           s == pool[1 + ((r \div 1000) % Len(pool))]
       IN  Walk(done \cup {s}, LCG(r), Append(acc, s))
Combo == [q \in 1..18 |-> [n |-> 1 + ((q - 1) % 3), react |-> <<"v1", "v2", "none">>[1 + (((q - 1) \div 3) % 3)],
                           coef |-> q > 9]]
RECURSIVE Out(_, _)
Out(m, r) == IF m > Count THEN <<>>
             ELSE << Combo[1 + ((m - 1) % 18)] @@ [steps |-> Walk({}, LCG(LCG(r)), <<>>)] >> \o Out(m + 1, LCG(r))
ASSUME JsonSerialize(IOEnv.OUT, Out(1, 1 + (Seed % 2000) * 1000003))
=============================================================================
