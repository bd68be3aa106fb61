------------------------------- MODULE KernLaws -------------------------------
(* The laws of the discrete operator as consequences of the kernel formulas,   *)
(* model checked in exact rationals.  The laws are linear in u, jointly linear  *)
(* in (b, a), and affine in f, so checking them on unit vectors decides them    *)
(* for all data on the boxes explored.  With ORDERS every order of the steps    *)
(* and every repetition of a step is explored; otherwise one order.             *)
EXTENDS Operator, Json, IOUtils
Boxes == JsonDeserialize(IOEnv.BOXES)      \* sequence of extents
Orders == IOEnv.ORDERS = "1"

VARIABLES p, x, done, bad
vars == <<p, x, done, bad>>
DX == << <<1, 2>>, <<3, 1>>, <<5, 2>> >>
P0(e, react, coef) == [lo |-> [m \in 1..Len(e) |-> m - 2], hi |-> [m \in 1..Len(e) |-> m - 3 + e[m]],
                       dx |-> SubSeq(DX, 1, Len(e)), alpha |-> <<3, 7>>, beta |-> <<-2, 5>>, react |-> react, coef |-> coef]
Decl(pp) ==
  LET n == Len(pp.lo)
      D(kind, dir, g) == [kind |-> kind, dir |-> dir, lo |-> pp.lo, hi |-> pp.hi, g |-> g]
      fs == [d \in {"b" \o ToString(m - 1) : m \in 1..n} \cup {"fl" \o ToString(m - 1) : m \in 1..n} |->
               D("face", (CHOOSE m \in 1..n : d \in {"b" \o ToString(m - 1), "fl" \o ToString(m - 1)}) - 1, 0)]
  IN  fs @@ ("u" :> D("cell", 0, 1)) @@ [a \in {"a", "f", "ap", "ap0", "re"} |-> D("cell", 0, 0)]
         @@ [a \in {"st", "row"} |-> D("win", 0, 0)]
Unit(n, q) == [m \in 1..n |-> IF m = q THEN One ELSE Zero]
Init ==
  \E e \in {Boxes[m] : m \in 1..Len(Boxes)}, react \in {"v1", "v2", "none"}, coef \in BOOLEAN :
    LET pp == P0(e, react, coef)
        sh == [a \in DOMAIN Decl(pp) |-> ShapeOf(Decl(pp)[a])]
        sz(a) == Size(sh[a])
        cs == (IF coef THEN {"b" \o ToString(m - 1) : m \in 1..Len(e)} ELSE {}) \cup (IF react = "v1" \/ ~coef THEN {"a"} ELSE {})
    IN  \E ub \in 1..sz("u") : \E arr \in cs : \E q \in 1..sz(arr) :
          /\ p = pp
          /\ x = [sh |-> sh, mem |-> [a \in DOMAIN sh |->
                    IF a = "u" THEN Unit(sz(a), ub) ELSE IF a = arr THEN Unit(sz(a), q)
                    ELSE IF a = "f" THEN [m \in 1..sz(a) |-> N(m)]
                    ELSE IF a \in {"b0", "b1", "b2", "a"} THEN [m \in 1..sz(a) |-> Zero]
                    ELSE [m \in 1..sz(a) |-> N(11 * m)]]]
          /\ done = {} /\ bad = {}
Canon == <<"flux", "ap", "ap0", "re", "off", "diag", "off0", "diag0">>
Enabled(s) == /\ After(s) \subseteq done
              /\ IF Orders THEN TRUE ELSE s = Canon[Cardinality(done) + 1]
Take(s) ==
  LET y == TLCEval(Exec(x, CallOf(p, s)))
      d == done \cup {s}
      br == TLCEval(Broken(y, p, d))
  IN  /\ Enabled(s)
      /\ x' = y /\ done' = d
      \* a step that is repeated leaves everything as it was, and only its own output changes
      /\ bad' = {br[m][1] : m \in 1..Len(br)}
                \cup (IF s \in done /\ y # x THEN {"repetition"} ELSE {})
      /\ UNCHANGED p
Next == \E s \in Steps : (Orders \/ (done # Steps)) /\ Take(s)
Hold == bad = {}
=============================================================================
