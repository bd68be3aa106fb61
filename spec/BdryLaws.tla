------------------------------- MODULE BdryLaws -------------------------------
(* The laws of Boundary.tla on the specification: every scenario on small boxes,  *)
(* at pseudo-random contents of the prime field (the laws are rational             *)
(* identities; a false one holds with probability about 1/P per element).          *)
EXTENDS Boundary, Json, IOUtils
Boxes == JsonDeserialize(IOEnv.BOXES)      \* sequence of extents
Seed == atoi(IOEnv.SEED)
NFill == atoi(IOEnv.NFILL)
Strict == IOEnv.STRICT = "1"

VARIABLES s, p, x0, x, todo, bad
vars == <<s, p, x0, x, todo, bad>>

Rnd(a, q) == 1 + ((Seed * 7919 + a * 10473 + q * q * 31 + q * 1009 + ((q * (Seed + 3) * 13) % 101) * ((q + a) % 97)) % (P - 1))
ArgsOf(ss, ee, pt) ==
  LET n == Len(ee)
      lo == [m \in 1..n |-> m - 3]
      hi == [m \in 1..n |-> m - 4 + ee[m]]
      fixed == ss.kind = "elim" \/ (ss.kind = "fill" /\ ~ss.coef /\ n = 1)
  IN  [lo |-> lo, hi |-> hi, dx |-> [m \in 1..n |-> N(Rnd(3, m))], alpha |-> N(Rnd(4, 1)), beta |-> N(Rnd(5, 1)),
       ba |-> IF fixed THEN N(2) ELSE N(Rnd(6, 1)), bb |-> IF fixed THEN One ELSE N(Rnd(7, 1)),
       sLo |-> [m \in 1..n |-> IF pt /\ ee[m] > 1 THEN lo[m] + 1 ELSE lo[m]], sHi |-> hi]
DeclsOf(pp) ==
  LET n == Len(pp.lo)
      D(kind, d, g) == [kind |-> kind, dir |-> d, lo |-> pp.lo, hi |-> pp.hi, g |-> g]
  IN  [a \in {"b" \o ToString(d) : d \in 0..(n - 1)} |-> D("face", CHOOSE d \in 0..(n - 1) : a = "b" \o ToString(d), 0)]
      @@ ("u" :> D("cell", 0, 1)) @@ [a \in {"a", "rhs"} |-> D("cell", 0, 0)] @@ [a \in {"st", "row"} |-> D("win", 0, 0)]
Hash(a) == CASE a = "u" -> 11 [] a = "a" -> 23 [] a = "rhs" -> 37 [] a = "b0" -> 41 [] a = "b1" -> 59 [] a = "b2" -> 61
             [] a = "st" -> 71 [] a = "row" -> 83
Fits(ss, ee) == /\ Len(ee) = ss.n
                /\ ss.kind = "fill" => \A m \in 1..Len(ee) : ee[m] > 1   \* else an opposite ghost, filled later, is used
                /\ ss.kind = "homog" => \A m \in 1..Len(ee) : ee[m] >= ss.ord
                /\ ss.kind # "homog" => \A m \in 1..Len(ee) : ee[m] < 4 \/ Len(ee) = 1
Scenarios == UNION {Elims(n) \cup Cfs(n) \cup Moves(n) \cup Fills(n, Seed, NFill) : n \in 1..3} \cup Homogs
Known(ss) == ss.kind = "elim" /\ ss.adjd /\ DirichletDiag(ss)
Contents(pp) ==
  LET dd == DeclsOf(pp)
  IN  [sh |-> [a \in DOMAIN dd |-> ShapeOf(dd[a])], mem |-> [a \in DOMAIN dd |-> [q \in 1..Size(ShapeOf(dd[a])) |-> Rnd(Hash(a), q)]]]
Init == /\ s \in Scenarios /\ (Strict => Known(s))
        /\ \E e \in {Boxes[m] : m \in 1..Len(Boxes)}, part \in BOOLEAN :
             /\ Fits(s, e) /\ (part => (s.kind \in {"elim", "cf", "move"} /\ \E m \in 1..Len(e) : e[m] > 1))
             /\ p = ArgsOf(s, e, part)
        /\ x0 = Contents(p) /\ x = x0 /\ todo = [q \in 1..Len(StepsOf(s)) |-> CallFor(p, StepsOf(s)[q])] /\ bad = {}
Next == /\ todo # <<>>
        /\ LET y == TLCEval(Exec(x, todo[1]))
               br == BdryBroken(x0, y, p, s, ~Strict)
           IN  /\ x' = y /\ todo' = Tail(todo)
               /\ bad' = IF Len(todo) > 1 THEN {} ELSE {br[q][1] : q \in 1..Len(br)}
        /\ UNCHANGED <<s, p, x0>>
Hold == bad = {}
=============================================================================
