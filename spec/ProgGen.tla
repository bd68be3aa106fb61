------------------------------- MODULE ProgGen ------------------------------
(* Generates programs of the lazy expression language from its grammar:     *)
(* these are rendered to C++ by the harness generator, run on the real       *)
(* library, and their recorded effects are validated by TraceDsl.           *)
(* A generator is a function of a random state r; it returns <<tree, r'>>.   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
\* the minimal standard generator, by Schrage's method (no 32-bit overflow)
LCG(r) == LET x == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN  IF x > 0 THEN x ELSE x + 2147483647
\* a number in 0..k-1 and the next state
Pick(r, k) == <<(LCG(r) \div 1000) % k, LCG(LCG(r))>>

Perms(d) ==
  CASE d = 1 -> << <<2>>, <<2>>, <<1>>, <<0>> >>
    [] d = 2 -> << <<1, 2>>, <<2, 1>>, <<0, 2>>, <<1, 2>>, <<0, 1>> >>
    [] d = 3 -> << <<0,1,2>>, <<0,2,1>>, <<1,0,2>>, <<1,2,0>>, <<2,0,1>>, <<2,1,0>> >>
SameAxes(d, base) ==
  IF d = 1 THEN << base >>
  ELSE IF d = 2 THEN << base, <<base[2], base[1]>> >>
  ELSE Perms(3)

\* ---- vector expressions over arrays x (target), y, z
Leaf(r, axes, depth, strided) ==
  LET p == Pick(r, IF strided THEN 7 ELSE 12)
      q == Pick(p[2], Len(axes))
      ax == axes[q[1] + 1]
      s == Pick(q[2], 4)
      arr == IF p[1] % 2 = 0 THEN "y" ELSE "z"
      k == <<-2, -1, 1, 2>>[s[1] + 1]
  IN CASE p[1] <= 2 -> <<[op |-> "ref", a |-> arr], s[2]>>
       [] p[1] = 3 -> <<[op |-> "ref", a |-> "x"], s[2]>>
       [] p[1] \in {4, 5} -> <<[op |-> "shift", a |-> arr, ax |-> ax, k |-> k], s[2]>>
       [] p[1] = 6 -> IF Len(axes) = 1 THEN <<[op |-> "ref", a |-> arr], s[2]>>
                      ELSE LET ax2 == axes[1 + ((q[1] + 1) % Len(axes))]
                           IN  <<[op |-> "shift2", a |-> arr, ax |-> ax, k |-> k, ax2 |-> ax2,
                                  k2 |-> IF s[1] % 2 = 0 THEN 1 ELSE -1], s[2]>>
       [] p[1] >= 7 -> <<[op |-> "grad", a |-> arr, ax |-> ax, s |-> IF s[1] < 2 THEN 1 ELSE -1,
                          h |-> 3], s[2]>>

Num(r) == LET p == Pick(r, 5)
          IN  IF p[1] < 3 THEN <<[op |-> "s", k |-> p[1]], p[2]>>
              ELSE <<[op |-> "lit", v |-> p[1] - 1], p[2]>>

\* divisors that are never zero: numbers, and combinations of the array d of
\* non-zero integers (an even multiple of it plus one is odd)
Two(f, l, r) == [op |-> "bin", f |-> f, l |-> l, r |-> r]
LitOf(v) == [op |-> "lit", v |-> v]
DivNum(r) == LET p == Pick(r, 8)
             IN  IF p[1] < 3 THEN <<[op |-> "s", k |-> p[1]], p[2]>>
                 ELSE <<LitOf(<<2, 4, 3, 5, 7>>[p[1] - 2]), p[2]>>
DivArr(r, axes) ==
  LET p == Pick(r, 7)
      q == Pick(p[2], Len(axes))
      s == Pick(q[2], 4)
      d == IF p[1] < 5 /\ p[1] % 2 = 0 THEN [op |-> "ref", a |-> "d"]
           ELSE [op |-> "shift", a |-> "d", ax |-> axes[q[1] + 1], k |-> <<-2, -1, 1, 2>>[s[1] + 1]]
  IN  <<CASE p[1] < 3 -> d
          [] p[1] = 3 -> Two("mul", LitOf(2 + s[1]), d)
          [] p[1] = 4 -> Two("mul", d, [op |-> "s", k |-> s[1] % 3])
          [] p[1] = 5 -> Two("add", Two("mul", LitOf(2), d), LitOf(1))
          [] p[1] = 6 -> Two("sub", LitOf(1 + 2 * s[1]), Two("mul", LitOf(4), d)),
        s[2]>>

BinOps == <<"add", "sub", "mul", "sub", "div">>
RECURSIVE Expr(_, _, _, _)
Expr(r, axes, depth, strided) ==
  LET p == Pick(r, 10) IN
  IF depth = 0 \/ (p[1] = 0 /\ depth < 2) THEN Leaf(p[2], axes, depth, strided)
  ELSE LET o == Pick(p[2], 5)
           f == BinOps[o[1] + 1]
       IN IF p[1] <= 3        \* scalar on the left
          THEN LET a == Num(o[2])
                   b == IF f = "div" THEN DivArr(a[2], axes) ELSE Expr(a[2], axes, depth - 1, strided)
               IN  <<[op |-> "bin", f |-> f, l |-> a[1], r |-> b[1]], b[2]>>
          ELSE IF p[1] <= 5   \* scalar on the right
          THEN LET a == Expr(o[2], axes, depth - 1, strided)
                   b == IF f = "div" THEN DivNum(a[2]) ELSE Num(a[2])
               IN  <<[op |-> "bin", f |-> f, l |-> a[1], r |-> b[1]], b[2]>>
          ELSE LET a == Expr(o[2], axes, depth - 1, strided)
                   b == IF f = "div" THEN DivArr(a[2], axes) ELSE Expr(a[2], axes, depth - 1, strided)
               IN  <<[op |-> "bin", f |-> f, l |-> a[1], r |-> b[1]], b[2]>>

\* ---- window expressions: entries of the point's window, scalars, and at
\* most two array operands joined one at a time (rules 1-6 of the library)
Entry(r) == LET p == Pick(r, 4) IN <<[op |-> "st", i |-> p[1]], p[2]>>
SimpleV(r, axes) ==
  LET p == Pick(r, 6) IN
  IF p[1] <= 2 THEN Leaf(p[2], axes, 0, FALSE)
  ELSE LET v == Leaf(p[2], axes, 0, FALSE)
           n == Num(v[2])
       IN  <<[op |-> "bin", f |-> "mul", l |-> n[1], r |-> v[1]], n[2]>>
NoDiv(f) == IF f = "div" THEN "add" ELSE f
RECURSIVE WExpr(_, _, _, _)
WExpr(r, axes, depth, vecs) ==
  IF depth = 0 THEN Entry(r)
  ELSE LET p == Pick(r, 9)
           o == Pick(p[2], 3)
           f == BinOps[o[1] + 1]
       IN CASE p[1] = 0 ->
                 LET a == WExpr(o[2], axes, depth - 1, vecs) IN <<[op |-> "neg", e |-> a[1]], a[2]>>
            [] p[1] = 1 ->
                 LET n == Num(o[2])  a == WExpr(n[2], axes, depth - 1, vecs)
                 IN <<[op |-> "bin", f |-> NoDiv(f), l |-> n[1], r |-> a[1]], a[2]>>
            [] p[1] = 2 ->
                 LET a == WExpr(o[2], axes, depth - 1, vecs)
                     n == IF f = "div" THEN DivNum(a[2]) ELSE Num(a[2])
                 IN <<[op |-> "bin", f |-> f, l |-> a[1], r |-> n[1]], n[2]>>
            [] p[1] \in {3, 4} ->
                 LET a == WExpr(o[2], axes, depth - 1, vecs)  b == WExpr(a[2], axes, depth - 1, 0)
                 IN IF p[1] = 3 THEN <<[op |-> "bin", f |-> NoDiv(f), l |-> a[1], r |-> b[1]], b[2]>>
                    ELSE <<[op |-> "bin", f |-> NoDiv(f), l |-> b[1], r |-> a[1]], b[2]>>
            [] p[1] >= 5 /\ vecs = 0 -> WExpr(o[2], axes, depth - 1, 0)
            [] p[1] \in {5, 6} /\ vecs > 0 ->
                 LET a == WExpr(o[2], axes, depth - 1, vecs - 1)
                     v == IF f = "div" THEN DivArr(a[2], axes) ELSE SimpleV(a[2], axes)
                 IN <<[op |-> "bin", f |-> f, l |-> a[1], r |-> v[1]], v[2]>>
            [] p[1] >= 7 /\ vecs > 0 ->
                 LET v == SimpleV(o[2], axes)  a == WExpr(v[2], axes, depth - 1, vecs - 1)
                 IN <<[op |-> "bin", f |-> NoDiv(f), l |-> v[1], r |-> a[1]], a[2]>>

\* ---- statements
Orders(r, d, base) ==
  LET c == SameAxes(d, base)
      a == Pick(r, Len(c))  b == Pick(a[2], Len(c))  e == Pick(b[2], Len(c))
      g == Pick(e[2], Len(c))  w == Pick(g[2], Len(c))
  IN  <<[comp |-> c[a[1] + 1], x |-> c[b[1] + 1], y |-> c[e[1] + 1], z |-> c[g[1] + 1],
         w |-> c[w[1] + 1]], w[2]>>

RECURSIVE Asgs(_, _, _)
Asgs(r, axes, k) ==
  IF k = 0 THEN <<>>
  ELSE LET p == Pick(r, 8)
           i == Pick(p[2], 4)
       IN IF p[1] = 0
          THEN LET n == Num(i[2]) IN << [i |-> i[1], e |-> n[1]] >> \o Asgs(n[2], axes, k - 1)
          ELSE IF p[1] = 1
          THEN LET v == SimpleV(i[2], axes) IN << [i |-> i[1], e |-> v[1]] >> \o Asgs(v[2], axes, k - 1)
          ELSE IF p[1] = 2
          THEN LET q == Pick(i[2], Len(axes))
                   n == Num(q[2])
                   pr == [op |-> "sten", a |-> IF q[1] % 2 = 0 THEN "y" ELSE "z",
                          ax |-> axes[q[1] + 1], s |-> IF i[1] < 2 THEN 1 ELSE -1]
               IN  << [i |-> i[1], j |-> (i[1] + 1) % 4,
                       e |-> IF p[2] % 3 = 0 THEN pr
                             ELSE IF p[2] % 3 = 1 THEN [op |-> "pbin", f |-> "mul", l |-> n[1], r |-> pr]
                             ELSE [op |-> "pbin", f |-> "sub", l |-> pr, r |-> n[1]]] >>
                   \o Asgs(n[2], axes, k - 1)
          ELSE LET e == WExpr(i[2], axes, 3, 2)
               IN  << [i |-> i[1], e |-> e[1]] >> \o Asgs(e[2], axes, k - 1)

\* array operands are read once per point, before its assignments: the second
\* update does not read the array the first one updates
RECURSIVE NoX(_)
NoX(e) == CASE e.op = "bin" -> [e EXCEPT !.l = NoX(@), !.r = NoX(@)]
            [] e.op = "neg" -> [e EXCEPT !.e = NoX(@)]
            [] e.op = "ref" /\ e.a = "x" -> [e EXCEPT !.a = "z"]
            [] OTHER -> e

\* one statement of a given kind; x, v: written arrays; y, z, d: read-only
Stm(kind, r, axes, depth) ==
  CASE kind = "assign" -> LET e == Expr(r, axes, depth, FALSE)
                          IN <<[kind |-> kind, strided |-> FALSE, e |-> e[1]], e[2]>>
    [] kind = "strided" -> LET e == Expr(r, axes, depth, TRUE)
                           IN <<[kind |-> "assign", strided |-> TRUE, e |-> e[1]], e[2]>>
    [] kind = "lhs"    -> LET e == Expr(r, axes, depth, FALSE)
                          IN <<[kind |-> kind, strided |-> FALSE, e |-> e[1]], e[2]>>
    [] kind = "fill"   -> LET e == Num(r)
                          IN <<[kind |-> "assign", strided |-> TRUE, e |-> e[1]], e[2]>>
    [] kind = "multi"  -> LET e == Expr(r, axes, depth, FALSE)  g == Expr(e[2], axes, 1, FALSE)
                          IN <<[kind |-> kind, strided |-> FALSE, e |-> e[1], e2 |-> g[1]], g[2]>>
    [] kind = "window" -> LET k == Pick(r, 3)  as == Asgs(k[2], axes, k[1] + 1)
                          IN <<[kind |-> kind, strided |-> FALSE, asg |-> as], LCG(k[2])>>
    [] kind = "wfill"  -> LET n == Num(r)  k == Pick(n[2], 4)
                          IN <<[kind |-> "window", strided |-> TRUE,
                                asg |-> << [i |-> k[1], j |-> (k[1] + 2) % 4, e |-> n[1]],
                                           [i |-> (k[1] + 1) % 4, e |-> [op |-> "lit", v |-> 3]] >>], k[2]>>
    [] kind = "selfsub" -> LET e == WExpr(r, axes, 3, 1)
                           IN <<[kind |-> kind, strided |-> FALSE, e |-> e[1]], e[2]>>
    [] kind = "selfsub2" -> LET e == WExpr(r, axes, 2, 1)  g == WExpr(e[2], axes, 2, 1)
                            IN <<[kind |-> kind, strided |-> FALSE, e |-> e[1], e2 |-> NoX(g[1])], g[2]>>

RECURSIVE Stms(_, _, _, _)
Stms(kinds, r, axes, m) ==
  IF kinds = <<>> THEN <<>>
  ELSE LET s == Stm(Head(kinds), r, axes, 1 + (m % 3))
       IN  <<s[1]>> \o Stms(Tail(kinds), s[2], axes, m + 1)

Mixes == [assign  |-> << <<"assign", "assign", "assign">>, <<"assign", "strided", "assign">> >>,
          domain  |-> << <<"strided", "fill", "lhs">>, <<"multi", "fill", "strided">>,
                         <<"lhs", "multi", "strided">> >>,
          window  |-> << <<"window", "window", "wfill">>, <<"window", "selfsub", "window">>,
                         <<"selfsub", "window", "selfsub">>,
                         <<"selfsub2", "window", "selfsub">> >>,
          mix     |-> << <<"assign", "window", "selfsub">>, <<"multi", "selfsub", "strided">> >>]

\* the element type of the read-only array y: the result's, or another one
YType(m, kind) == IF kind \in {"assign", "domain"} /\ m % 5 = 3 THEN <<"int", "float">>[1 + ((m \div 5) % 2)] ELSE "T"

\* where no declared box is a domain, a second assignment may read what the
\* first one wrote at other points
Chained(stms, axes, m) ==
  IF \E q \in 1..Len(stms) : stms[q].kind = "lhs" THEN stms
  ELSE [q \in 1..Len(stms) |->
          IF stms[q].kind # "multi" THEN stms[q]
          ELSE [stms[q] EXCEPT !.e2 = Two("sub", @, [op |-> "shift", a |-> "x", ax |-> axes[1 + (m % Len(axes))],
                                                     k |-> IF (m + q) % 2 = 0 THEN 1 ELSE -1])]]

Prog(m, r, kind) ==
  LET d == Pick(r, 5)
      nd == <<1, 2, 2, 3, 3>>[d[1] + 1]
      b == Pick(d[2], Len(Perms(nd)))
      base == Perms(nd)[b[1] + 1]
      o == Orders(b[2], nd, base)
      mx == Mixes[kind]
  IN  [ords |-> o[1], yt |-> YType(m, kind), stms |-> Chained(Stms(mx[1 + (m % Len(mx))], o[2], base, m), base, m)]

\* ---- arrays whose window axis is an axis like the others: domains over up to
\* four axes, in any order of the axes (KIND = quad)
RECURSIVE Shuf(_, _, _)
Shuf(s, q, r) == IF q < 2 THEN s
                 ELSE LET j == 1 + Pick(r, q)[1]
                      IN  Shuf([s EXCEPT ![q] = s[j], ![j] = s[q]], q - 1, Pick(r, q)[2])
QuadProg(m, r) ==
  LET set == << <<0, 1, 2, 3>>, <<0, 1, 2, 3>>, <<0, 1, 2, 3>>, <<1, 2, 3>>, <<2, 3>>, <<0, 1, 3>> >>[1 + (m % 6)]
      n == Len(set)
      sp == SubSeq(set, 1, n - 1)
      q(k) == Shuf(set, n, LCG(r + k * 104729))
      mx == Mixes.domain \o Mixes.assign
  IN  [ords |-> [comp |-> IF m % 3 = 0 THEN set ELSE q(1), x |-> q(2), y |-> q(3), z |-> q(4), w |-> sp],
       stms |-> Stms(mx[1 + (m % Len(mx))], LCG(LCG(r)), sp, m)]

\* ---- systematic programs: every storage order against every order of the
\* computation, every axis, both directions (KIND = orders)
RECURSIVE SumOf(_, _)
SumOf(f(_), es) ==   \* s0*e1 + s1*e2 + s2*e3
  IF Len(es) = 1 THEN [op |-> "bin", f |-> "mul", l |-> [op |-> "s", k |-> 0], r |-> es[1]]
  ELSE [op |-> "bin", f |-> "add", l |-> SumOf(f, SubSeq(es, 1, Len(es) - 1)),
        r |-> [op |-> "bin", f |-> "mul", l |-> [op |-> "s", k |-> f(Len(es))], r |-> es[Len(es)]]]
Id(k) == k - 1
OrderStms(axes) ==
  LET d == Len(axes)
      g(s) == [m \in 1..d |-> [op |-> "grad", a |-> "y", ax |-> axes[m], s |-> s, h |-> 3]]
      sh(q) == [m \in 1..d |-> [op |-> "shift", a |-> "y", ax |-> axes[m], k |-> IF m % 2 = q THEN m ELSE -m]]
      prs == IF d = 1 THEN <<>> ELSE IF d = 2 THEN << <<1, 2>> >> ELSE << <<1, 2>>, <<1, 3>>, <<2, 3>> >>
      s2(q) == [m \in 1..Len(prs) |-> [op |-> "shift2", a |-> "y", ax |-> axes[prs[m][1]], k |-> q,
                                        ax2 |-> axes[prs[m][2]], k2 |-> IF m = 2 THEN q ELSE -2 * q]]
      st(s) == [m \in 1..d |-> [i |-> m - 1, j |-> m, e |-> [op |-> "sten", a |-> "y", ax |-> axes[m], s |-> s]]]
      asg(e) == [kind |-> "assign", strided |-> FALSE, e |-> e]
      sasg(e) == [kind |-> "assign", strided |-> TRUE, e |-> e]
  IN  << asg(SumOf(Id, g(1))), asg(SumOf(Id, g(-1))), asg(SumOf(Id, sh(1))), asg(SumOf(Id, sh(0))),
         [kind |-> "window", strided |-> FALSE, asg |-> st(1)],
         [kind |-> "window", strided |-> FALSE, asg |-> st(-1)] >>
      \o << sasg(SumOf(Id, sh(1))), sasg(SumOf(Id, sh(0))) >>
      \o (IF d = 1 THEN <<>> ELSE << asg(SumOf(Id, s2(1))), asg(SumOf(Id, s2(-1))), sasg(SumOf(Id, s2(1))) >>)

SomeOrd(c, m) == c[1 + (m % Len(c))]
OrderProgs ==
  LET mk(cs, a, b) == [ords |-> [comp |-> cs[a], y |-> cs[b], x |-> SomeOrd(cs, a + b), z |-> cs[a],
                                 w |-> SomeOrd(cs, a + 2 * b)],
                       stms |-> OrderStms(cs[a])]
      all(cs) == [q \in 1..(Len(cs) * Len(cs)) |-> mk(cs, 1 + ((q - 1) \div Len(cs)), 1 + ((q - 1) % Len(cs)))]
  IN  all(<< <<0>> >>) \o all(<< <<1>> >>) \o all(<< <<2>> >>)
      \o all(<< <<1, 2>>, <<2, 1>> >>) \o all(<< <<0, 2>>, <<2, 0>> >>) \o all(<< <<0, 1>>, <<1, 0>> >>)
      \o all(Perms(3))

\* ---- offset-table products (KIND = dot): w . y displaced by a table
DotStms(r) ==
  LET dt(b, t) == [op |-> "dot", a |-> "w", b |-> b, tab |-> t]
      bin(f, l, q) == [op |-> "bin", f |-> f, l |-> l, r |-> q]
      asg(e, st) == [kind |-> "assign", strided |-> st, e |-> e]
  IN  << asg(dt("y", 1), FALSE), asg(dt("y", 2), TRUE),
         asg(bin("sub", [op |-> "ref", a |-> "z"], bin("mul", [op |-> "s", k |-> 0], dt("y", 1))), FALSE),
         asg(bin("add", dt("y", 1), dt("z", 2)), FALSE),
         [kind |-> "lhs", strided |-> FALSE, e |-> bin("sub", dt("y", 2), [op |-> "ref", a |-> "x"])] >>
DotProgs ==
  LET mk(cs, a, b, e) == [ords |-> [comp |-> cs[a], y |-> cs[b], z |-> cs[e], x |-> cs[1 + ((a + b) % Len(cs))],
                                    w |-> cs[1 + ((a + e) % Len(cs))]],
                          wt |-> <<"T", "int", "float">>[1 + ((a + 2 * b) % 3)],  \* the element type of w
                          stms |-> DotStms(0)]
      all(cs) == [q \in 1..(Len(cs) * Len(cs)) |->
                    mk(cs, 1 + ((q - 1) \div Len(cs)), 1 + ((q - 1) % Len(cs)), 1 + (q % Len(cs)))]
  IN  all(<< <<2>> >>) \o all(<< <<0>> >>) \o all(<< <<1, 2>>, <<2, 1>> >>) \o all(<< <<2, 0>>, <<0, 2>> >>)
      \o all(Perms(3))

\* ---- coarse reads (KIND = fine): the ratio and the coarse point are chosen at run time
FineProgs ==
  LET mk(c, y, x) == [ords |-> [comp |-> c, y |-> y, x |-> x, z |-> c, w |-> c],
                      stms |-> [m \in 1..(2 * Len(c)) |->
                         LET f == [op |-> "fine", a |-> "y", ax |-> c[1 + ((m - 1) \div 2)]]
                             z == [op |-> "ref", a |-> "z"]
                             s0 == [op |-> "s", k |-> 0]
                             v == (m \div 2 + Len(c) + c[1] + y[1] + x[1]) % 4
                         IN  [kind |-> "assign", strided |-> FALSE,
                              e |-> IF m % 2 = 1 THEN f
                                    ELSE CASE v = 0 -> Two("sub", z, f)
                                           [] v = 1 -> Two("add", Two("mul", s0, z), f)
                                           [] v = 2 -> Two("mul", Two("sub", z, f), s0)
                                           [] v = 3 -> Two("mul", [op |-> "shift", a |-> "z", ax |-> f.ax, k |-> -1], f)]]]
      cs == << <<2>>, <<1>>, <<0>>, <<1, 2>>, <<2, 1>>, <<2, 0>>, <<0, 1>>,
               <<0,1,2>>, <<2,1,0>>, <<1,2,0>>, <<2,0,1>>, <<0,2,1>>, <<1,0,2>> >>
      same(a, b) == Len(a) = Len(b) /\ {a[m] : m \in 1..Len(a)} = {b[m] : m \in 1..Len(b)}
      prs == SelectSeq([q \in 1..(Len(cs) * Len(cs)) |-> <<1 + ((q - 1) \div Len(cs)), 1 + ((q - 1) % Len(cs))>>],
                       LAMBDA pr : same(cs[pr[1]], cs[pr[2]]))
  IN  [q \in 1..Len(prs) |-> mk(cs[prs[q][1]], cs[prs[q][2]], cs[prs[q][2 - (q % 2)]])]

KindNo == CASE IOEnv.KIND = "assign" -> 0 [] IOEnv.KIND = "domain" -> 1 [] IOEnv.KIND = "window" -> 2 [] OTHER -> 3
R0(m) == LCG(LCG(LCG(1 + (Seed % 2000) * 1000003 + m * 7919 + KindNo * 104729)))
Gen(m) == Prog(m, R0(m), IOEnv.KIND)
Out == CASE IOEnv.KIND = "orders" -> OrderProgs
         [] IOEnv.KIND = "dot"    -> DotProgs
         [] IOEnv.KIND = "fine"   -> FineProgs
         [] IOEnv.KIND = "quad"   -> [m \in 1..Count |-> QuadProg(m, R0(m))]
         [] OTHER -> [m \in 1..Count |-> Gen(m)]
ASSUME JsonSerialize(IOEnv.OUT, Out)
=============================================================================
