----------------------------- MODULE TraceBounds -----------------------------
(* Validates recorded range-algebra walks: after every operation, all four   *)
(* registers report the ranges of the model (operations have no side effect  *)
(* on their operands).                                                       *)
EXTENDS Bounds, Json, IOUtils, TLC
Tests == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, regs, bad
Init == t \in 1..Len(Tests) /\ l = 0 /\ regs = Tests[t].init /\ bad = <<>>
See(r) == [m \in 1..4 |-> Seen(r[m])]
Next == /\ bad = <<>> /\ l <= Len(Tests[t].ops)
        /\ LET r2 == IF l = 0 THEN regs ELSE Do(regs, Tests[t].ops[l])
               ob == Tests[t].obs[l + 1]
           IN  /\ regs' = r2
               /\ bad' = IF ob = See(r2) THEN <<>>
                         ELSE <<[walk |-> t, step |-> l, op |-> IF l = 0 THEN <<>> ELSE Tests[t].ops[l],
                                 expected |-> See(r2), observed |-> ob]>>
        /\ l' = l + 1 /\ UNCHANGED t
NoBad == bad = <<>>
=============================================================================
