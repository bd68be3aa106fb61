-------------------------------- MODULE Dsl --------------------------------
(* What the lazy array language means.  The state is the memory: for every *)
(* array the sequence of its element values.  Shapes (Grid) are fixed.     *)
(* An expression denotes a value at every point of the domain; a statement *)
(* maps the memory to a new one.                                           *)
EXTENDS Grid, Num

(* Expression trees (records with field op):                               *)
(*  s k        scalar variable k        lit v    integer literal            *)
(*  ref a      array a at the point                                         *)
(*  shift a ax k [ax2 k2]   array a displaced along named axes              *)
(*  grad a ax s h           difference of the pair (s = 1: [i, i+1],         *)
(*                          s = -1: [i-1, i]) over spacing h (scalar index)  *)
(*  bin f l r               arithmetic                                      *)
(*  dot a b tab             sum_w a[w] * b displaced by row w of a table    *)
(*  fine a ax ratio at      array a at the coarse point: named coordinate   *)
(*                          ax is floor(point/ratio), the others are `at`    *)
(* in window statements also                                               *)
(*  st i       entry i of the point's window     neg e                     *)
(*  sten a ax s, pbin f l r   the neighbour pair, and pair-scalar arithmetic *)

Arith(f, x, y) == CASE f = "add" -> Add(x, y) [] f = "sub" -> Sub(x, y)
                    [] f = "mul" -> Mul(x, y) [] f = "div" -> Div(x, y)

\* env: [mem, sh, s (scalars), tabs, comp (axes of the computation, slowest first)]
At(env, a, c) == env.mem[a][Addr(env.sh[a], c)]
WinAt(env, a, c, w) ==
  LET sh == env.sh[a]
      m == AxisPos(sh.ord, W)
  IN  env.mem[a][Addr(sh, [x \in DOMAIN c \cup {W} |-> IF x = W THEN sh.lo[m] + w ELSE c[x]])]

PairLo(e, c) == IF e.s = 1 THEN c ELSE Shift(c, e.ax, -1)
PairHi(e, c) == IF e.s = 1 THEN Shift(c, e.ax, 1) ELSE c

\* displacement of c by a table row: column 1 is the fastest axis of the computation
RECURSIVE Displace(_, _, _, _)
Displace(c, comp, row, m) ==
  IF m > Len(row) THEN c
  ELSE Displace(Shift(c, comp[Len(comp) + 1 - m], row[m]), comp, row, m + 1)

RECURSIVE Eval(_, _, _, _)
\* value of e at point c; win: the point's window (a sequence) where there is one
Eval(e, c, env, win) ==
  CASE e.op = "s"     -> env.s[e.k + 1]
    [] e.op = "lit"   -> N(e.v)
    [] e.op = "ref"   -> At(env, e.a, c)
    [] e.op = "shift" -> At(env, e.a, Shift(c, e.ax, e.k))
    [] e.op = "shift2" -> At(env, e.a, Shift(Shift(c, e.ax, e.k), e.ax2, e.k2))
    [] e.op = "grad"  -> Div(Sub(At(env, e.a, PairHi(e, c)), At(env, e.a, PairLo(e, c))), env.s[e.h + 1])
    [] e.op = "bin"   -> Arith(e.f, Eval(e.l, c, env, win), Eval(e.r, c, env, win))
    [] e.op = "neg"   -> Neg(Eval(e.e, c, env, win))
    [] e.op = "st"    -> win[e.i + 1]
    [] e.op = "dot"   -> LET t == env.tabs[e.tab]
                             F(w) == Mul(WinAt(env, e.a, c, w - 1), At(env, e.b, Displace(c, env.comp, t[w], 1)))
                         IN  SumF(F, 1, Len(t))
    [] e.op = "fine"  -> At(env, e.a, [x \in DOMAIN c |-> IF x = e.ax THEN c[x] \div e.ratio
                                                           ELSE e.at[x + 1]])

RECURSIVE EvalPair(_, _, _)
\* value of a pair expression: <<at the lower point, at the upper point>>
EvalPair(e, c, env) ==
  IF e.op = "sten" THEN <<At(env, e.a, PairLo(e, c)), At(env, e.a, PairHi(e, c))>>
  ELSE IF e.l.op \in {"s", "lit"}
  THEN LET p == EvalPair(e.r, c, env)  x == Eval(e.l, c, env, <<>>)
       IN  <<Arith(e.f, x, p[1]), Arith(e.f, x, p[2])>>
  ELSE LET p == EvalPair(e.l, c, env)  x == Eval(e.r, c, env, <<>>)
       IN  <<Arith(e.f, p[1], x), Arith(e.f, p[2], x)>>

\* ---- statements

\* every point of the domain, and nothing else, gets the value of e
AssignTo(mem, env, a, dom, e) ==
  [mem EXCEPT ![a] = [q \in 1..Len(mem[a]) |->
     LET c == CoordOf(env.sh[a], q)
     IN  IF InDom(dom, c) THEN Eval(e, c, env, <<>>) ELSE mem[a][q]]]

Window(env, a, c) ==
  LET sh == env.sh[a]  m == AxisPos(sh.ord, W)
  IN  [w \in 1..(sh.hi[m] - sh.lo[m] + 1) |-> WinAt(env, a, c, w - 1)]

RECURSIVE RunWindow(_, _, _, _)
\* the assignments of a window statement, one after another, at one point
RunWindow(asg, c, env, win) ==
  IF asg = <<>> THEN win
  ELSE LET h == Head(asg)
           w2 == IF "j" \in DOMAIN h
                 THEN IF h.e.op \in {"sten", "pbin"}
                      THEN LET p == EvalPair(h.e, c, env)
                           IN  [[win EXCEPT ![h.i + 1] = p[1]] EXCEPT ![h.j + 1] = p[2]]
                      ELSE LET x == Eval(h.e, c, env, win)
                           IN  [[win EXCEPT ![h.i + 1] = x] EXCEPT ![h.j + 1] = x]
                 ELSE [win EXCEPT ![h.i + 1] = Eval(h.e, c, env, win)]
       IN  RunWindow(Tail(asg), c, env, w2)

\* the coordinate without its window axis
Spatial(c) == [x \in DOMAIN c \ {W} |-> c[x]]

WindowTo(mem, env, a, dom, asg) ==
  LET sh == env.sh[a]  m == AxisPos(sh.ord, W)
  IN  [mem EXCEPT ![a] = [q \in 1..Len(mem[a]) |->
         LET c == CoordOf(sh, q)
             p == Spatial(c)
         IN  IF InDom(dom, p)
             THEN RunWindow(asg, p, env, Window(env, a, p))[c[W] - sh.lo[m] + 1]
             ELSE mem[a][q]]]

\* target -= window expression
SelfSub(mem, env, a, st, dom, e) ==
  [mem EXCEPT ![a] = [q \in 1..Len(mem[a]) |->
     LET c == CoordOf(env.sh[a], q)
     IN  IF InDom(dom, c) THEN Sub(mem[a][q], Eval(e, c, env, Window(env, st, c))) ELSE mem[a][q]]]

\* one statement on memory mem; x: shapes, scalars, tables
Exec(mem, x, stm) ==
  LET env == [mem |-> mem, sh |-> x.sh, s |-> x.s, tabs |-> x.tabs,
              comp |-> [m \in 1..Len(stm.dom) |-> stm.dom[m].ax]]
  IN  CASE stm.kind = "assign"  -> AssignTo(mem, env, stm.a, stm.dom, stm.e)
        [] stm.kind = "window"  -> WindowTo(mem, env, stm.a, stm.dom, stm.asg)
        [] stm.kind = "selfsub" -> SelfSub(mem, env, stm.a, stm.st, stm.dom, stm.e)
=============================================================================
