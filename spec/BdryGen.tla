-------------------------------- MODULE BdryGen --------------------------------
(* The scenarios of Boundary.tla with their steps, and COUNT random fillings per   *)
(* dimension.                                                                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT P
B == INSTANCE Boundary
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o Listed(S \ {e})
Of(S) == LET q == Listed(S) IN [m \in 1..Len(q) |-> [s |-> q[m], steps |-> B!StepsOf(q[m])]]
ASSUME JsonSerialize(IOEnv.OUT,
  Of(B!Elims(1)) \o Of(B!Elims(2)) \o Of(B!Elims(3)) \o Of(B!Cfs(1)) \o Of(B!Cfs(2)) \o Of(B!Cfs(3))
  \o Of(B!Moves(1)) \o Of(B!Moves(2)) \o Of(B!Moves(3)) \o Of(B!Homogs)
  \o Of(B!Fills(1, Seed, Count)) \o Of(B!Fills(2, Seed, Count)) \o Of(B!Fills(3, Seed, Count)))
=============================================================================
