----------------------------- MODULE HostDevice -----------------------------
(* An owning array as its user sees it: one sequence of contents, however    *)
(* it is written (device pointer, random fill, offset row, construction,     *)
(* copy) and however it is read (host view, conversion, device pointer).     *)
(* A device write goes through a pointer obtained for it.                    *)
(* Randomly filled elements are unknown until first read: they are tokens    *)
(* (negative numbers below -10^6) that the first read binds everywhere.      *)
EXTENDS Integers, Sequences

\* operations <<code, x, y, k, val>> on arrays x, y of the register file
\* 0 write one element  1 read device  2 read host()  3 convert to vector
\* 4 random fill in [k, val] (y = 1: [0, 1], y = 2: [k, 1])  5 set offset row k to val, val+1, ..
\* 6 assign  7 copy-construct  8 construct anew  9 size  10 write all  11 swap
Reads == {1, 2, 3}
Fresh(n) == [i \in 1..n |-> 0]
Token(c, i) == -(1000000 + c * 4096 + i)
IsToken(x) == x < -1000000

\* S: [a: register file, fills: function of fill number -> <<lo, hi>>, c: fill counter, cols]
Do(S, op) ==
  LET n == Len(S.a[op[2] + 1])  x == op[2] + 1  y == op[3] + 1 IN
  CASE op[1] = 0 -> [S EXCEPT !.a[x][op[4] + 1] = op[5]]
    [] op[1] \in {1, 2, 3, 9} -> S
    [] op[1] = 4 -> [S EXCEPT !.a[x] = [i \in 1..n |-> Token(S.c, i)], !.c = @ + 1]
    [] op[1] = 5 -> [S EXCEPT !.a[x] = [i \in 1..n |-> IF (i - 1) \div S.cols = op[4]
                                                       THEN op[5] + ((i - 1) % S.cols) ELSE S.a[x][i]]]
    [] op[1] \in {6, 7} -> [S EXCEPT !.a[y] = S.a[x]]
    [] op[1] = 8 -> [S EXCEPT !.a[x] = Fresh(n)]
    [] op[1] = 10 -> [S EXCEPT !.a[x] = [i \in 1..n |-> op[5] + i - 1]]
    [] op[1] = 11 -> [S EXCEPT !.a[x] = S.a[y], !.a[y] = S.a[x]]

\* binding of tokens by a read of array x that returned ob
Bind(S, x, ob) ==
  LET src == S.a[x]
      val(z) == IF IsToken(z) /\ \E i \in 1..Len(src) : src[i] = z
                THEN ob[CHOOSE i \in 1..Len(src) : src[i] = z] ELSE z
  IN  [S EXCEPT !.a = [m \in 1..Len(S.a) |-> [i \in 1..Len(S.a[m]) |-> val(S.a[m][i])]]]

\* is ob a legal result of reading array x ?  rng: bounds of random values
Legal(S, x, ob, inrange(_, _)) ==
  /\ Len(ob) = Len(S.a[x])
  /\ \A i \in 1..Len(ob) : IF IsToken(S.a[x][i]) THEN inrange(S.a[x][i], ob[i]) ELSE ob[i] = S.a[x][i]
=============================================================================
