------------------------------ MODULE TraceDsl ------------------------------
(* Validates recorded executions of lazy-array programs.  A test is an      *)
(* initial memory and a list of statements, each with the memory the real    *)
(* code left (every array, ghosts included) and whether the guard zones      *)
(* around the arrays were intact.                                           *)
EXTENDS Dsl, Json, TLC, IOUtils
Tests == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, mem, bad
vars == <<t, l, mem, bad>>
Init == t \in 1..Len(Tests) /\ l = 1 /\ mem = Tests[t].mem /\ bad = <<>>

RECURSIVE ExecAll(_, _, _)
\* the statements of one event take effect in order
ExecAll(m, x, stms) == IF stms = <<>> THEN m ELSE ExecAll(Exec(m, x, Head(stms)), x, Tail(stms))

Diff(a, b) ==   \* first difference, for the report
  LET n == CHOOSE n \in DOMAIN a : a[n] # b[n]
      q == CHOOSE q \in 1..Len(a[n]) : q > Len(b[n]) \/ a[n][q] # b[n][q]
  IN  [array |-> n, element |-> q, expected |-> a[n][q], observed |-> b[n][q]]

Next == /\ bad = <<>> /\ l <= Len(Tests[t].events)
        /\ LET ev == Tests[t].events[l]
               m2 == ExecAll(mem, Tests[t], ev.stms)
           IN  /\ mem' = m2
               /\ bad' = IF ~ev.guard THEN <<[test |-> Tests[t].id, event |-> l, what |-> "wrote outside the arrays"]>>
                         ELSE IF m2 = ev.post THEN <<>>
                         ELSE <<[test |-> Tests[t].id, event |-> l, diff |-> Diff(m2, ev.post)]>>
        /\ l' = l + 1 /\ UNCHANGED t
NoBad == bad = <<>>
=============================================================================
