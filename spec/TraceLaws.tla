------------------------------- MODULE TraceLaws -------------------------------
(* Checks the laws of the discrete operator on the contents real kernels left: *)
(* a test is the shared arguments, the array declarations, and after each step  *)
(* the elements that changed.  Nothing is predicted; the laws relate outputs.    *)
EXTENDS Operator, Json, IOUtils
Tests == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, x, done, bad
vars == <<t, l, x, done, bad>>
Init == /\ t \in 1..Len(Tests) /\ l = 1 /\ bad = <<>> /\ done = {}
        /\ x = [mem |-> Tests[t].mem, sh |-> [a \in DOMAIN Tests[t].decl |-> ShapeOf(Tests[t].decl[a])]]
Ix(s, q) == CHOOSE m \in 1..Len(s) : s[m] = q
Observed(mem, ev) ==
  [a \in DOMAIN mem |->
     IF a \in DOMAIN ev.diff
     THEN LET ix == ev.diff[a].ix  v == ev.diff[a].v
              at == {ix[m] : m \in 1..Len(ix)}
          IN  [q \in 1..Len(mem[a]) |-> IF q \in at THEN v[Ix(ix, q)] ELSE mem[a][q]]
     ELSE mem[a]]
Next == /\ bad = <<>> /\ l <= Len(Tests[t].events)
        /\ LET ev == Tests[t].events[l]
               y == TLCEval([x EXCEPT !.mem = Observed(x.mem, ev)])
               d == done \cup {ev.step}
               br == Broken(y, Tests[t].p, d)
           IN  /\ x' = y /\ done' = d
               /\ bad' = IF ~ev.guard THEN << [test |-> Tests[t].id, event |-> l, call |-> ev.name, what |-> "wrote outside the arrays"] >>
                         ELSE IF br = <<>> THEN <<>>
                         ELSE << [test |-> Tests[t].id, event |-> l, call |-> ev.name, law |-> br[1][1], p |-> Tests[t].p] >>
        /\ l' = l + 1 /\ UNCHANGED t
NoBad == bad = <<>>
=============================================================================
