----------------------------- MODULE TraceIndex -----------------------------
(* For declared boxes: the linear index an owning array computes, the        *)
(* element a view reports at a coordinate, the position the traversal visits *)
(* it at and the reported sizes all agree with row-major position.           *)
EXTENDS Grid, Json, IOUtils, TLC
Tests == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, q, bad
Init == t \in 1..Len(Tests) /\ q = 0 /\ bad = <<>>
sh == Tests[t].sh
\* probe: [c: coordinate per storage position, index, at, trav]
Coord(c) == [a \in {sh.ord[m] : m \in 1..Len(sh.ord)} |-> c[AxisPos(sh.ord, a)]]
Next == /\ bad = <<>> /\ q <= Len(Tests[t].probes)
        /\ LET ex == IF q = 0 THEN <<Size(sh), Ext(sh), Size(sh), Size(sh)>>
                     ELSE LET p == Pos0(sh, Coord(Tests[t].probes[q].c)) IN <<p, p, p>>
               ob == IF q = 0 THEN Tests[t].sizes ELSE Tests[t].probes[q].obs
           IN  bad' = IF ex = ob THEN <<>>
                      ELSE <<[test |-> Tests[t].id, probe |-> IF q = 0 THEN <<>> ELSE Tests[t].probes[q].c,
                              expected |-> ex, observed |-> ob]>>
        /\ q' = q + 1 /\ UNCHANGED t
NoBad == bad = <<>>
=============================================================================
