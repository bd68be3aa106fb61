------------------------------- MODULE TraceBdry -------------------------------
(* Checks the laws of Boundary.tla on the contents real kernels left: a test is   *)
(* a scenario, its arguments, the declarations, and after each call the elements   *)
(* that changed.  Nothing is predicted; the laws relate outputs.                   *)
EXTENDS Boundary, Json, IOUtils
Tests == JsonDeserialize(IOEnv.TRACE)
Lenient == IOEnv.LENIENT = "1"
VARIABLES t, l, x0, x, bad
vars == <<t, l, x0, x, bad>>
Init == /\ t \in 1..Len(Tests) /\ l = 1 /\ bad = <<>>
        /\ x = [mem |-> Tests[t].mem, sh |-> [a \in DOMAIN Tests[t].decl |-> ShapeOf(Tests[t].decl[a])]]
        /\ x0 = x
Ix(s, q) == CHOOSE m \in 1..Len(s) : s[m] = q
Observed(mem, ev) ==
  [a \in DOMAIN mem |->
     IF a \in DOMAIN ev.diff
     THEN LET ix == ev.diff[a].ix  v == ev.diff[a].v
              at == {ix[m] : m \in 1..Len(ix)}
          IN  [q \in 1..Len(mem[a]) |-> IF q \in at THEN v[Ix(ix, q)] ELSE mem[a][q]]
     ELSE mem[a]]
Step == /\ l <= Len(Tests[t].events)
        /\ LET ev == Tests[t].events[l]
           IN  /\ x' = [x EXCEPT !.mem = Observed(x.mem, ev)]
               /\ bad' = IF ev.guard THEN <<>>
                         ELSE << [test |-> Tests[t].id, event |-> l, call |-> ev.name, what |-> "wrote outside the arrays"] >>
Judge == /\ l = Len(Tests[t].events) + 1
         /\ LET br == BdryBroken(x0, x, Tests[t].p, Tests[t].s, Lenient)
            IN  bad' = IF br = <<>> THEN <<>>
                       ELSE << [test |-> Tests[t].id, law |-> br[1][1], scenario |-> Tests[t].s, p |-> Tests[t].p] >>
         /\ UNCHANGED x
Next == bad = <<>> /\ (Step \/ Judge) /\ l' = l + 1 /\ UNCHANGED <<t, x0>>
NoBad == bad = <<>>
=============================================================================
