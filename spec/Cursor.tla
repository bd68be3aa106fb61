------------------------------- MODULE Cursor -------------------------------
(* The random-access cursor every view must behave like: a position in     *)
(* 0..n and a register holding a copy of an earlier cursor.  This machine  *)
(* is what recorded walks are validated against (TraceNav), what the       *)
(* algorithm models refine (TraversalImpl, PairImpl), and where the walks  *)
(* driven through the real iterators are generated from (WalkGen).         *)
EXTENDS Integers, Sequences

\* operations: <<0,0>> ++   <<1,0>> --   <<2,k>> += k   <<3,0>> reg := it
\*             <<4,0>> it := reg         <<5,k>> look at it[k]  <<6,k>> it-k / it+k fresh copies
Enabled(n, c, op) ==
  CASE op[1] = 0 -> c.pos < n
    [] op[1] = 1 -> c.pos > 0
    [] op[1] = 2 -> c.pos + op[2] \in 0..n
    [] op[1] = 3 -> TRUE
    [] op[1] = 4 -> TRUE
    [] op[1] = 5 -> c.pos + op[2] \in 0..(n - 1)
    [] op[1] = 6 -> c.pos + op[2] \in 0..n

Step(c, op) ==
  CASE op[1] = 0 -> [c EXCEPT !.pos = @ + 1]
    [] op[1] = 1 -> [c EXCEPT !.pos = @ - 1]
    [] op[1] = 2 -> [c EXCEPT !.pos = @ + op[2]]
    [] op[1] = 3 -> [c EXCEPT !.reg = c.pos]
    [] op[1] = 4 -> [c EXCEPT !.pos = c.reg]
    [] op[1] = 5 -> c
    [] op[1] = 6 -> c

\* the position an operation's observation looks at
Looks(c2, op) == IF op[1] \in {5, 6} THEN c2.pos + op[2] ELSE c2.pos
Start == [pos |-> 0, reg |-> 0]
Bool(b) == IF b THEN 1 ELSE 0
=============================================================================
