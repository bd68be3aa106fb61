------------------------------- MODULE RefLaws -------------------------------
(* What relates the reference-only kernels to each other and to the solution    *)
(* of the discrete equations, checked on the specification.  The laws are        *)
(* rational identities in the contents; they are evaluated in the prime field     *)
(* at pseudo-random contents (several seeds), where a false identity holds with   *)
(* probability about 1/P per element.                                            *)
EXTENDS Reference, Json, IOUtils
Boxes == JsonDeserialize(IOEnv.BOXES)       \* sequence of extents
Seeds == IOEnv.SEEDS

VARIABLES p, law, bad
vars == <<p, law, bad>>

Star(n) == << [m \in 1..n |-> 0] >> \o [q \in 1..(2 * n) |-> [m \in 1..n |-> IF m = 1 + ((q - 1) \div 2) THEN (IF q % 2 = 1 THEN -1 ELSE 1) ELSE 0]]
RECURSIVE Grid3(_)
Grid3(n) == IF n = 0 THEN << <<>> >> ELSE LET g == Grid3(n - 1) IN [q \in 1..(3 * Len(g)) |-> Append(g[1 + ((q - 1) \div 3)], (q % 3) - 1)]
Compact(n) == << [m \in 1..n |-> 0] >> \o SelectSeq(Grid3(n), LAMBDA o : \E m \in 1..n : o[m] # 0)
OffOf(pp) == IF pp.shape = "star" THEN Star(Len(pp.e)) ELSE Compact(Len(pp.e))

Lo(pp) == [m \in 1..Len(pp.e) |-> m - 3]
Hi(pp) == [m \in 1..Len(pp.e) |-> m - 4 + pp.e[m]]
Rnd(s, a, q) == 1 + ((s * 7919 + a * 10473 + q * q * 31 + q * 1009 + ((q * s * 13) % 101) * ((q + a) % 97)) % (P - 1))
Decls(pp) ==
  LET n == Len(pp.e)
      D(kind, d, g) == [kind |-> kind, dir |-> d, lo |-> Lo(pp), hi |-> Hi(pp), g |-> g]
      Wn(k, g) == D("win", 0, g) @@ ("nw" :> k)
      ds == 0..(n - 1)
      fs == [a \in {"b" \o ToString(d) : d \in ds} \cup {"fl" \o ToString(d) : d \in ds} |->
               D("face", CHOOSE d \in ds : a \in {"b" \o ToString(d), "fl" \o ToString(d)}, 0)]
  IN  fs @@ ("u" :> D("cell", 0, 2)) @@ [a \in {"f", "rhs", "res", "r2", "a", "dg", "f0", "f1", "u0", "u1"} |-> D("cell", 0, 0)]
         @@ ("st" :> Wn(Len(OffOf(pp)), 0)) @@ ("as" :> Wn(2 * n + 1, 0)) @@ ("m2" :> Wn(4, 0))
         @@ [a \in {"yu"} |-> Wn(2, 1)] @@ [a \in {"yf", "yr"} |-> Wn(2, 0)] @@ ("ys" :> Wn(4 * Len(OffOf(pp)), 0))
         @@ [a \in {"wu"} |-> Wn(1, 2)] @@ [a \in {"wf", "wr"} |-> Wn(1, 0)]
State(pp) ==
  LET dd == TLCEval(Decls(pp))
      sh == TLCEval([a \in DOMAIN dd |-> ShapeOf(dd[a])])
      hash(a) == Len(a) * 37 + dd[a].g * 11 + Size(sh[a]) + (IF a \in {"f1", "u1", "b1", "fl1", "wf"} THEN 500 ELSE 0) + (IF a \in {"b2", "r2"} THEN 900 ELSE 0)
                 + (IF a \in {"u", "u0", "yu", "wu", "a"} THEN 250 ELSE 0)
  IN  [sh |-> sh, mem |-> TLCEval([a \in DOMAIN dd |-> [q \in 1..Size(sh[a]) |-> Rnd(pp.seed, hash(a), q)]])]

Base(pp, k) == [k |-> k, lo |-> Lo(pp), hi |-> Hi(pp), st |-> "st", off |-> OffOf(pp), u |-> "u", f |-> "f"]
CellsOf(pp) == LET dom == BoxDom(Lo(pp), Hi(pp)) IN [q \in 1..DomSize(dom) |-> DomCoord(dom, q - 1)]
Same(x, y, a) == x.mem[a] = y.mem[a]
\* the product with the stencil, in f
Product(x, pp) == ExecAll(x, Base(pp, "stencil") @@ [aa |-> One, bb |-> Zero, out |-> "f"])
Swp(pp, colour) == Base(pp, "sweep") @@ [colour |-> colour]
OnColour(pp, c, colour) == Colour([lo |-> Lo(pp)], c) = colour

FixedPoint(x, pp, cl) == LET y == TLCEval(Product(x, pp)) IN Same(ExecAll(y, cl), y, "u")
BoxCall(pp, bs) ==
  Base(pp, "boxblock") @@ [bs |-> bs, disp |-> [m \in 1..3 |-> [q \in 1..(pp.e[m] \div bs[m]) |-> (q - 1) * bs[m]]]]
SysCall(pp, nd) == [k |-> "system", lo |-> Lo(pp), hi |-> Hi(pp), st |-> IF nd = 1 THEN "st" ELSE "ys", off |-> OffOf(pp), ndof |-> nd,
                    u |-> IF nd = 1 THEN "wu" ELSE "yu", f |-> IF nd = 1 THEN "wf" ELSE "yf", r |-> IF nd = 1 THEN "wr" ELSE "yr"]
SysProduct(x, pp) ==   \* yf := A yu
  LET cl == SysCall(pp, 2)
      F(c, w) == [i \in 1..2 |->
                    LET T(s) == LET G(j) == Mul(Blk(x, cl, c, s, i, j), St(x, cl.u, Move(c, cl.off[s]), j)) IN SumF(G, 1, 2)
                    IN  SumF(T, 1, Len(cl.off))]
  IN  SetWin(x, "yf", cl.lo, cl.hi, F)

Law(law_, pp) ==
  LET x == TLCEval(State(pp))
      n == Len(pp.e)
      cs == CellsOf(pp)
      lo == Lo(pp)  hi == Hi(pp)
      star == pp.shape = "star"
      dx == SubSeq(<<Q(1, 2), Q(3, 1), Q(5, 2)>>, 1, n)
      nm(pre) == [d \in 1..n |-> pre \o ToString(d - 1)]
      op == [lo |-> lo, hi |-> hi, dx |-> dx, alpha |-> Q(3, 7), beta |-> Q(-2, 5), b |-> nm("b"), fl |-> nm("fl"), u |-> "u",
             a |-> "a", f |-> "f", react |-> "v1", coef |-> TRUE]
      asm == TLCEval(ExecAll(ExecAll(ExecAll(x, [op EXCEPT !.b = nm("b")] @@ [k |-> "flux"]), op @@ [k |-> "offdiag", st |-> "as"]),
                     op @@ [k |-> "diag", st |-> "as"]))
      ass == [k |-> "stencil", lo |-> lo, hi |-> hi, st |-> "as", off |-> Star(n), u |-> "u", f |-> "f"]
      full == TLCEval(ExecAll(x, Swp(pp, 2)))
      col == TLCEval([q \in {0, 1} |-> ExecAll(x, Swp(pp, q))])
      jac == TLCEval(ExecAll(x, Base(pp, "jacobi")))
      \* all points of the colour at once, from the old values
      atonce(q) == LET F(c) == IF OnColour(pp, c, q) THEN Relaxed(x, Swp(pp, q), c) ELSE Get(x, "u", c) IN Set(x, "u", lo, hi, F)
      resid(y, c) == Sub(Get(y, "f", c), Couple(y, Base(pp, "jacobi"), c, 1))
      one == [m \in 1..3 |-> 1]
      sideCall(d, s) == [k |-> "crsfine", dir |-> d, side |-> s, st |-> "st", off |-> OffOf(pp), u |-> "u", rhs |-> "rhs",
                         pLo |-> [m \in 1..n |-> IF m - 1 = d THEN (IF s = 0 THEN lo[m] - 1 ELSE hi[m] + 1) ELSE lo[m]],
                         pHi |-> [m \in 1..n |-> IF m - 1 = d THEN (IF s = 0 THEN lo[m] - 1 ELSE hi[m] + 1) ELSE hi[m]]]
      cut(d, s) == [x EXCEPT !.mem["u"] = [q \in 1..Len(x.mem["u"]) |->
                      LET c == CoordOf(x.sh["u"], q)
                      IN  IF (s = 0 /\ c[AxOf(d)] < lo[d + 1]) \/ (s = 1 /\ c[AxOf(d)] > hi[d + 1]) THEN Zero ELSE x.mem["u"][q]]]
  IN  CASE law_ = "the assembled stencil applied = the operator without a matrix" ->
           LET y == TLCEval(ExecAll(asm, ass @@ [aa |-> One, bb |-> Zero, out |-> "res"]))
               z == TLCEval(ExecAll(asm, op @@ [k |-> "apply", form |-> "apply", out |-> "r2"]))
           IN  y.mem["res"] = z.mem["r2"]
         [] law_ = "with factors -1 and 1 it is the residual" ->
           LET y == TLCEval(ExecAll(asm, ass @@ [aa |-> N(-1), bb |-> One, out |-> "res"]))
               z == TLCEval(ExecAll(asm, op @@ [k |-> "apply", form |-> "res", out |-> "r2"]))
           IN  y.mem["res"] = z.mem["r2"]
         [] law_ = "node form of the operator = b f + a (operator)" ->
           LET z == TLCEval(ExecAll(asm, op @@ [k |-> "nodeapply", aa |-> Q(2, 3), bb |-> Q(-1, 4), out |-> "res"]))
               y == TLCEval(ExecAll(asm, ass @@ [aa |-> Q(2, 3), bb |-> Q(-1, 4), out |-> "res"]))
           IN  z.mem["res"] = y.mem["res"]
         [] law_ = "right-hand side adjustment = application with factors 1 and 1" ->
           ExecAll(x, Base(pp, "sysrhs")).mem["f"] = ExecAll(x, Base(pp, "stencil") @@ [aa |-> One, bb |-> One, out |-> "res"]).mem["res"]
         [] law_ = "the side adjustment removes exactly the couplings to cells beyond the side" ->
           \A d \in 0..(n - 1), s \in {0, 1} :
             LET y == TLCEval(ExecAll(x, sideCall(d, s)))  z == TLCEval(cut(d, s))
             IN  \A q \in 1..Len(cs) : Get(y, "rhs", cs[q]) =
                   Sub(Get(x, "rhs", cs[q]), Sub(Couple(x, Base(pp, "jacobi"), cs[q], 1), Couple(z, Base(pp, "jacobi"), cs[q], 1)))
         [] law_ = "the solution is a fixed point of Jacobi" ->
           FixedPoint(x, pp, Base(pp, "jacobi"))
         [] law_ = "the solution is a fixed point of the sweeps" ->
           \A q \in {0, 1, 2} : FixedPoint(x, pp, Swp(pp, q))
         [] law_ = "a sweep of one colour satisfies the equations of that colour" ->
           star => \A q \in {0, 1} : \A m \in 1..Len(cs) : OnColour(pp, cs[m], q) => IsZero(resid(col[q], cs[m]))
         [] law_ = "the points of one colour may be relaxed in any order" ->
           star => \A q \in {0, 1} : Same(col[q], atonce(q), "u")
         [] law_ = "so may those of a compact stencil" ->              \* wrong: the negative control
           \A q \in {0, 1} : Same(col[q], atonce(q), "u")
         [] law_ = "the colours partition the box" ->
           \A m \in 1..Len(cs) : \E q \in {0, 1} : /\ Get(col[q], "u", cs[m]) # Get(x, "u", cs[m])
                                                  /\ Get(col[1 - q], "u", cs[m]) = Get(x, "u", cs[m])
         [] law_ = "the last point of a full sweep satisfies its equation" ->
           IsZero(resid(full, cs[Len(cs)]))
         [] law_ = "point blocks of one unknown = Jacobi for a residual" ->
           LET F(c) == resid(x, c)  G(c) == St(x, "st", c, 1)
               y == TLCEval(Set(Set(x, "f", lo, hi, F), "dg", lo, hi, G))
           IN  Same(ExecAll(y, [k |-> "block1", d |-> "dg", f |-> "f", u |-> "u", lo |-> lo, hi |-> hi]), jac, "u")
         [] law_ = "point blocks of two uncoupled unknowns = two of one" ->
           LET D(c, w) == <<w[1], Zero, Zero, w[4]>>
               y == TLCEval(SetWin(x, "m2", lo, hi, D))
               z == TLCEval(ExecAll(y, [k |-> "block2", d |-> "m2", f2 |-> <<"f0", "f1">>, u2 |-> <<"u0", "u1">>, lo |-> lo, hi |-> hi]))
               G(s) == LET F(c) == St(y, "m2", c, s)
                       IN  ExecAll(Set(y, "dg", lo, hi, F), [k |-> "block1", d |-> "dg", f |-> IF s = 1 THEN "f0" ELSE "f1",
                                                            u |-> IF s = 1 THEN "u0" ELSE "u1", lo |-> lo, hi |-> hi])
           IN  Same(z, G(1), "u0") /\ Same(z, G(4), "u1")
         [] law_ = "box blocks of one cell = Jacobi" ->
           n = 3 => (Same(ExecAll(x, BoxCall(pp, one)), jac, "u"))
         [] law_ = "the solution is a fixed point of the box blocks" ->
           n = 3 => (\A bs \in {[m \in 1..3 |-> IF m = d /\ pp.e[d] > 1 THEN 2 ELSE 1] : d \in 1..3} : FixedPoint(x, pp, BoxCall(pp, bs)))
         [] law_ = "systems of one unknown = the full sweep" ->
           n = 3 => (LET y == [x EXCEPT !.mem["wu"] = x.mem["u"], !.mem["wf"] = x.mem["f"]]
           IN  ExecAll(y, SysCall(pp, 1)).mem["wu"] = full.mem["u"])
         [] law_ = "the solution is a fixed point of the system sweep" ->
           n = 3 => (LET y == TLCEval(SysProduct(x, pp)) IN Same(ExecAll(y, SysCall(pp, 2)), y, "yu"))

Names == {"the assembled stencil applied = the operator without a matrix",
          "with factors -1 and 1 it is the residual",
          "node form of the operator = b f + a (operator)",
          "right-hand side adjustment = application with factors 1 and 1",
          "the side adjustment removes exactly the couplings to cells beyond the side",
          "the solution is a fixed point of Jacobi",
          "the solution is a fixed point of the sweeps",
          "a sweep of one colour satisfies the equations of that colour",
          "the points of one colour may be relaxed in any order",
          "the colours partition the box",
          "the last point of a full sweep satisfies its equation",
          "point blocks of one unknown = Jacobi for a residual",
          "point blocks of two uncoupled unknowns = two of one",
          "box blocks of one cell = Jacobi",
          "the solution is a fixed point of the box blocks",
          "systems of one unknown = the full sweep",
          "the solution is a fixed point of the system sweep"}

Wrong == {"so may those of a compact stencil"}

Init == /\ p \in [e : {Boxes[m] : m \in 1..Len(Boxes)}, shape : {"star", "compact"}, seed : 1..(CHOOSE k \in 1..50 : ToString(k) = Seeds)]
        /\ law \in Names /\ bad = FALSE
Next == ~bad /\ bad' = ~Law(law, p) /\ UNCHANGED <<p, law>>
Hold == ~bad
=============================================================================
