----------------------------- MODULE TraceKernel -----------------------------
(* Validates recorded histories of kernel calls.  A test is a set of array     *)
(* declarations, the initial memory, and the calls with the elements that       *)
(* differ after each of them from before it (as observed, all arrays, ghosts    *)
(* included) and whether the guard zones around the arrays were intact.         *)
EXTENDS Reference, Json, IOUtils
Tests == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, x, bad
vars == <<t, l, x, bad>>
Init == /\ t \in 1..Len(Tests) /\ l = 1 /\ bad = <<>>
        /\ x = [mem |-> Tests[t].mem, sh |-> [a \in DOMAIN Tests[t].decl |-> ShapeOf(Tests[t].decl[a])]]

\* the observed memory: the memory before with the reported elements replaced
\* (the list is complete: an element not in it was observed unchanged; positions ascend)
RECURSIVE Within(_, _, _, _)
Within(s, q, a, b) ==  \* where q is in s[a..b], or 0
  IF a > b THEN 0
  ELSE LET m == (a + b) \div 2
       IN  IF s[m] = q THEN m ELSE IF s[m] < q THEN Within(s, q, m + 1, b) ELSE Within(s, q, a, m - 1)
Observed(mem, ev) ==
  [a \in DOMAIN mem |->
     IF a \in DOMAIN ev.diff
     THEN LET ix == ev.diff[a].ix  v == ev.diff[a].v
              n == Len(ix)
          IN  [q \in 1..Len(mem[a]) |-> LET m == Within(ix, q, 1, n) IN IF m > 0 THEN v[m] ELSE mem[a][q]]
     ELSE mem[a]]
FirstDiff(a, b) ==
  LET n == CHOOSE n \in DOMAIN a : a[n] # b[n]
      q == CHOOSE q \in 1..Len(a[n]) : a[n][q] # b[n][q]
  IN  [array |-> n, at |-> CoordOf(x.sh[n], q), expected |-> a[n][q], observed |-> b[n][q]]

Next == /\ bad = <<>> /\ l <= Len(Tests[t].events)
        /\ LET ev == Tests[t].events[l]
               want == TLCEval(ExecAll(x, ev.call).mem)
               seen == TLCEval(Observed(x.mem, ev))
           IN  /\ x' = [x EXCEPT !.mem = want]
               /\ bad' = IF ~ev.guard THEN <<[test |-> Tests[t].id, event |-> l, call |-> ev.name, what |-> "wrote outside the arrays"]>>
                         ELSE IF want = seen THEN <<>>
                         ELSE <<[test |-> Tests[t].id, event |-> l, call |-> ev.name, diff |-> FirstDiff(want, seen)]>>
        /\ l' = l + 1 /\ UNCHANGED t
NoBad == bad = <<>>
=============================================================================
