------------------------------- MODULE TraceHd -------------------------------
(* Validates histories of owning-array operations recorded from the real code *)
EXTENDS HostDevice, Json, IOUtils, TLC
Tests == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S, rng, bad
vars == <<t, l, S, rng, bad>>
NReg == 3
Init == /\ t \in 1..Len(Tests) /\ l = 1 /\ bad = <<>> /\ rng = <<>>
        /\ S = [a |-> [m \in 1..NReg |-> Fresh(Tests[t].e1 * Tests[t].e2)], c |-> 0,
                cols |-> IF Tests[t].kind = 1 THEN Tests[t].e2 ELSE 1]
\* a real x that is no integer is reported as 2^28 + floor(x * 2^20)
FillOf(z) == 1 + ((-z - 1000000) \div 4096)
Image(x) == 268435456 + x * 1048576
InRng(z, ob) ==
  LET lo == rng[FillOf(z)][1]  hi == rng[FillOf(z)][2]
  IN  (ob >= lo /\ ob <= hi) \/ (Tests[t].kind # 1 /\ ob >= Image(lo) /\ ob <= Image(hi))
\* an array filled at random with reals and read at once is not constant
Varied(a, ob) ==
  \/ Tests[t].kind = 1 \/ \E i \in 1..Len(a) : ~IsToken(a[i])
  \/ \E i \in 1..Len(a) : FillOf(a[i]) # FillOf(a[1]) \/ rng[FillOf(a[i])][1] = rng[FillOf(a[i])][2]
  \/ \E i \in 1..Len(ob) : ob[i] # ob[1]
Next == /\ bad = <<>> /\ l <= Len(Tests[t].ops)
        /\ LET op == Tests[t].ops[l]  ob == Tests[t].obs[l]  x == op[2] + 1
               ok == CASE op[1] \in Reads -> Legal(S, x, ob, InRng) /\ Varied(S.a[x], ob)
                       [] op[1] = 9 -> ob = <<Len(S.a[x])>>
                       [] OTHER -> ob = <<>>
           IN  /\ bad' = IF ok THEN <<>> ELSE <<[test |-> t, step |-> l, history |-> SubSeq(Tests[t].ops, 1, l),
                                                 kind |-> Tests[t].kind, expected |-> S.a[x], observed |-> ob]>>
               /\ S' = IF ok /\ op[1] \in Reads THEN Bind(S, x, ob) ELSE Do(S, op)
               /\ rng' = IF op[1] = 4 THEN Append(rng, <<op[4], op[5]>>) ELSE rng
        /\ l' = l + 1 /\ UNCHANGED t
NoBad == bad = <<>>
=============================================================================
