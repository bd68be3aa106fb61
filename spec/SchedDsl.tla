------------------------------ MODULE SchedDsl ------------------------------
(* The parallel execution of one statement.  The points of its domain are   *)
(* taken by workers in any order, from any partition; a point is two steps,  *)
(* reading everything it needs and writing its own element (or window), and  *)
(* up to Workers points are open at a time.  Whatever the interleaving, the   *)
(* memory at the end is the one Dsl.tla gives the statement without saying    *)
(* anything about order.                                                     *)
EXTENDS Dsl, Json, TLC, IOUtils, FiniteSets
CONSTANT Workers
Tests == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, mem, ph, latch
vars == <<t, mem, ph, latch>>
Stm == Tests[t].stm
Pts == 1..DomSize(Stm.dom)
C(p) == DomCoord(Stm.dom, p - 1)
Env == [mem |-> mem, sh |-> Tests[t].sh, s |-> Tests[t].s, tabs |-> Tests[t].tabs,
        comp |-> [m \in 1..Len(Stm.dom) |-> Stm.dom[m].ax]]

Init == /\ t \in 1..Len(Tests) /\ mem = Tests[t].mem
        /\ ph = [p \in Pts |-> "todo"] /\ latch = [p \in Pts |-> <<>>]

Value(p) ==
  CASE Stm.kind = "assign"  -> <<Eval(Stm.e, C(p), Env, <<>>)>>
    [] Stm.kind = "window"  -> RunWindow(Stm.asg, C(p), Env, Window(Env, Stm.a, C(p)))
    [] Stm.kind = "selfsub" -> <<Sub(At(Env, Stm.a, C(p)), Eval(Stm.e, C(p), Env, Window(Env, Stm.st, C(p))))>>

Open == {p \in Pts : ph[p] = "open"}
Read(p) == /\ ph[p] = "todo" /\ Cardinality(Open) < Workers
           /\ latch' = [latch EXCEPT ![p] = Value(p)]
           /\ ph' = [ph EXCEPT ![p] = "open"] /\ UNCHANGED <<t, mem>>

Store(p) ==
  IF Stm.kind = "window"
  THEN LET sh == Tests[t].sh[Stm.a]  m == AxisPos(sh.ord, W)
           wa(w) == Addr(sh, [x \in DOMAIN C(p) \cup {W} |-> IF x = W THEN sh.lo[m] + w - 1 ELSE C(p)[x]])
       IN  [q \in 1..Len(mem[Stm.a]) |->
              IF \E w \in 1..Len(latch[p]) : wa(w) = q
              THEN latch[p][CHOOSE w \in 1..Len(latch[p]) : wa(w) = q] ELSE mem[Stm.a][q]]
  ELSE [mem[Stm.a] EXCEPT ![Addr(Tests[t].sh[Stm.a], C(p))] = latch[p][1]]
Write(p) == /\ ph[p] = "open"
            /\ mem' = [mem EXCEPT ![Stm.a] = Store(p)]
            /\ latch' = [latch EXCEPT ![p] = <<>>]
            /\ ph' = [ph EXCEPT ![p] = "done"] /\ UNCHANGED t
Next == \E p \in Pts : Read(p) \/ Write(p)

Done == \A p \in Pts : ph[p] = "done"
Confluent == Done => mem = Exec(Tests[t].mem, Tests[t], Stm)
=============================================================================
