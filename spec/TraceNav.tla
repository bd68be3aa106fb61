------------------------------ MODULE TraceNav ------------------------------
(* Validates walks recorded from the real iterators against Cursor and     *)
(* Views.  A test is one view and, per walk of the list its size selects,    *)
(* what the real code answered after each operation.                       *)
(* An answer is <<it-begin, end-it, it-reg, bits, element...>> with bits   *)
(*   1 it = begin   2 it = end   4 it = reg   8 it < end   16 it < reg      *)
(* and no element at the past-the-end position; for op 5, and for window   *)
(* views (which have no comparison operators), just the element.           *)
EXTENDS Cursor, Views, Json, TLC, TLCExt, IOUtils
LOCAL Tests == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, w, l, c, bad
vars == <<t, w, l, c, bad>>

Expect(v, n, c2, op) ==
  IF op[1] = 5 THEN Element(v, c2.pos + op[2])
  ELSE LET p == Looks(c2, op)
           bits == Bool(p = 0) + 2 * Bool(p = n) + 4 * Bool(p = c2.reg)
                   + 8 * Bool(p < n) + 16 * Bool(p < c2.reg)
       IN  (IF v.kind = "window" THEN <<>> ELSE <<p, n - p, p - c2.reg, bits>>)
           \o (IF p < n THEN Element(v, p) ELSE <<>>)

Init == /\ t \in 1..Len(Tests.tests)
        /\ w \in 1..Len(Tests.walks[Tests.tests[t].wk])
        /\ l = 1 /\ c = Start /\ bad = <<>>

Next == /\ bad = <<>>
        /\ l <= Len(Tests.walks[Tests.tests[t].wk][w])
        /\ LET te == Tests.tests[t]
               wk == [ops |-> Tests.walks[te.wk][w], obs |-> te.obs[w]]
               op == wk.ops[l]
               n  == ViewSize(te.v)
               c2 == Step(c, op)
               ex == Expect(te.v, n, c2, op)
           IN  /\ Assert(Enabled(n, c, op), <<"walk not enabled", t, w, l>>)
               /\ c' = c2
               /\ bad' = IF wk.obs[l] = ex /\ te.n = n THEN <<>>
                         ELSE <<[test |-> te.id, walk |-> w, step |-> l, op |-> op,
                                 expected |-> ex, observed |-> wk.obs[l],
                                 size |-> n, reported |-> te.n]>>
        /\ l' = l + 1
        /\ UNCHANGED <<t, w>>

Spec == Init /\ [][Next]_vars
NoBad == bad = <<>>
=============================================================================
