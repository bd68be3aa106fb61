------------------------------- MODULE KernGen -------------------------------
(* Histories of kernel calls: for a family of kernels and a dimension, every    *)
(* combination of kernel, variant, side, boundary type, order and ratio the      *)
(* interface takes (and some it does not define), shuffled, with random repeats,  *)
(* cut into histories.  Boxes, coefficients and contents are bound later.         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Seed == atoi(IOEnv.SEED)
Len0 == atoi(IOEnv.LEN)       \* calls per history
Rounds == atoi(IOEnv.ROUNDS)  \* times the whole product is covered
LCG(r) == LET x == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN  IF x > 0 THEN x ELSE x + 2147483647

RECURSIVE Prod(_, _)
\* all sequences whose m-th element is one of ss[m]
Prod(ss, m) == IF m > Len(ss) THEN << <<>> >>
               ELSE LET rest == Prod(ss, m + 1)
                    IN  [q \in 1..(Len(ss[m]) * Len(rest)) |->
                           <<ss[m][1 + ((q - 1) \div Len(rest))]>> \o rest[1 + ((q - 1) % Len(rest))]]
All(ss) == Prod(ss, 1)
Ints(a, b) == [q \in 1..(b - a + 1) |-> a + q - 1]
TF == <<TRUE, FALSE>>
Map(F(_), s) == [q \in 1..Len(s) |-> F(s[q])]

ApplyCalls(n) == Map(LAMBDA v : [k |-> "apply", form |-> v[1], react |-> v[2]],
                     All(<< <<"res", "apply">>, <<"v1", "v2", "none">> >>))
FluxCalls(n) == Map(LAMBDA v : [k |-> "flux", coef |-> v[1]], All(<<TF>>))
Bts == <<0, 1, 4, 2>>
BcCalls(n) ==
  Map(LAMBDA v : [k |-> "bc", type |-> 1, coef |-> v[1], face |-> v[2], btype |-> v[3], ord |-> v[4]],
      All(<<TF, Ints(0, 2 * n - 1), Bts, <<1, 2, 1, 2, 0, 3>> >>))
  \o (IF n = 1 THEN <<>> ELSE
      Map(LAMBDA v : [k |-> "bc", type |-> 2, coef |-> v[1], face |-> v[2], btype |-> v[3], ord |-> 1],
          All(<<TF, Ints(0, IF n = 2 THEN 4 ELSE 12), <<0, 4>> >>)))
  \o (IF n = 3 THEN Map(LAMBDA v : [k |-> "bc", type |-> 3, coef |-> v[1], face |-> v[2], btype |-> v[3], ord |-> 2],
                        All(<<TF, Ints(0, 8), <<0, 1>> >>)) ELSE <<>>)
  \o (IF n = 2 THEN Map(LAMBDA v : [k |-> "corner", face |-> v[1], type |-> 1, btype |-> v[2], ord |-> 1], All(<<Ints(0, 4), <<0, 1>> >>))
                    \o Map(LAMBDA v : [k |-> "homog", face |-> v[1], ord |-> v[2]], All(<<Ints(0, 3), Ints(0, 5)>>))
      ELSE <<>>)
ExtrapCalls(n) == IF n # 3 THEN <<>> ELSE
  Map(LAMBDA v : [k |-> "extrap", type |-> 1, face |-> v[1]], All(<<Ints(0, 6)>>))
  \o Map(LAMBDA v : [k |-> "extrap", type |-> 2, face |-> v[1]], All(<<Ints(0, 12)>>))
  \o Map(LAMBDA v : [k |-> "extrap", type |-> 3, face |-> v[1]], All(<<Ints(0, 8)>>))
AsmCalls(n) ==
  Map(LAMBDA v : [k |-> "offdiag", coef |-> v[1], own |-> v[2]], All(<<TF, TF>>))
  \o Map(LAMBDA v : [k |-> "diag", react |-> v[1], own |-> v[2]], All(<< <<"v1", "v2", "none">>, TF>>))
AdjCalls(n) ==
  LET sides == <<0, 1>>  dirs == Ints(0, n - 1)
  IN  Map(LAMBDA v : [k |-> v[1], coef |-> v[2], dir |-> v[3], side |-> v[4], btype |-> v[5], ord |-> v[6]],
          All(<< <<"adjdiag", "adjoff">>, TF, dirs, sides, Bts, <<1, 2, 0>> >>))
      \o Map(LAMBDA v : [k |-> "adjcfdiag", coef |-> v[1], dir |-> v[2], side |-> v[3], ord |-> v[4], r |-> v[5]],
             All(<<TF, dirs, sides, <<1, 2, 0>>, <<1, 2, 3, 4, 5, 8>> >>))
      \o Map(LAMBDA v : [k |-> "adjcfoff", dir |-> v[1], side |-> v[2], ord |-> v[3], r |-> v[4]],
             All(<<dirs, sides, <<1, 2, 0>>, <<1, 2, 3, 4, 5, 8>> >>))
      \o Map(LAMBDA v : [k |-> v[1], dir |-> v[2], side |-> v[3]], All(<< <<"readj", "bdryrhs", "bdryrhs">>, dirs, sides>>))
CopyCalls(n) == IF n # 3 THEN <<>> ELSE
  Map(LAMBDA v : [k |-> "copy", axis |-> v[1], r |-> v[2]], All(<<Ints(0, 2), <<1, 2, 2, 3, 4, 5, 8>> >>))
  \o Map(LAMBDA v : [k |-> "copycorner"], All(<<Ints(1, 6)>>))

\* the reference-only kernels: stencils of several shapes, every side, colour and block form
Shapes == <<"star", "star", "compact", "few", "far">>
StencilCalls(n) ==
  Map(LAMBDA v : [k |-> "stencil", point |-> v[1], shape |-> v[2]], All(<<TF, Shapes>>))
  \o (IF n = 3 THEN <<>> ELSE Map(LAMBDA v : [k |-> "sysrhs", shape |-> v[1], spare |-> v[2]], All(<<Shapes, TF>>)))
  \o Map(LAMBDA v : [k |-> "crsfine", dir |-> v[1], side |-> v[2], shape |-> v[3]],
         All(<<Ints(0, n - 1), <<0, 1>>, <<"star", "compact", "few">> >>))
SmoothCalls(n) ==
  Map(LAMBDA v : [k |-> "jacobi", shape |-> v[1]], All(<<Shapes>>))
  \o Map(LAMBDA v : [k |-> "sweep", form |-> v[1], colour |-> v[2], shape |-> v[3]],
         All(<< <<"gs">>, <<2>>, Shapes>>) \o All(<< <<"rb">>, <<0, 1>>, Shapes>>)
         \o (CASE n = 1 -> <<>> [] n = 2 -> All(<< <<"s5">>, <<0, 1, 0, 1>>, <<"star">> >>) \o All(<< <<"s9">>, <<0, 1, 0, 1>>, <<"compact">> >>)
               [] n = 3 -> All(<< <<"s7">>, <<0, 1, 0, 1>>, <<"star">> >>)))
  \o (IF n < 3 THEN Map(LAMBDA v : [k |-> v[1]], All(<< <<"block1", "block2">> >>))
      ELSE [q \in 1..4 |-> [k |-> "boxblock"]] \o [q \in 1..4 |-> [k |-> "system"]])

Family(f, n) == CASE f = "apply" -> ApplyCalls(n) [] f = "flux" -> FluxCalls(n) [] f = "bc" -> BcCalls(n)
                  [] f = "assemble" -> AsmCalls(n) [] f = "adjust" -> AdjCalls(n) [] f = "copy" -> CopyCalls(n)
                  [] f = "extrap" -> ExtrapCalls(n)
                  [] f = "stencil" -> StencilCalls(n) [] f = "smooth" -> SmoothCalls(n)
                  [] f = "mixed" -> StencilCalls(n) \o SmoothCalls(n)
                  \* mixed histories: the whole interface, with the cheap kernels repeated
                  [] f = "all" -> BcCalls(n) \o AdjCalls(n) \o CopyCalls(n)
                        \o [q \in 1..60 |-> (ApplyCalls(n) \o FluxCalls(n) \o AsmCalls(n) \o AsmCalls(n))[1 + (q % 28)]]

RECURSIVE Swap(_, _, _)
Swap(s, q, r) ==   \* Fisher-Yates
  IF q < 2 THEN s
  ELSE LET j == 1 + ((r \div 1000) % q)
       IN  Swap([s EXCEPT ![q] = s[j], ![j] = s[q]], q - 1, LCG(r))
RECURSIVE Cut(_, _)
Cut(s, n) == IF s = <<>> THEN <<>>
             ELSE IF Len(s) <= Len0 THEN << [n |-> n, calls |-> s] >>
             ELSE << [n |-> n, calls |-> SubSeq(s, 1, Len0)] >> \o Cut(SubSeq(s, Len0 + 1, Len(s)), n)
RECURSIVE Times(_, _, _, _)
Times(f, n, r, m) == IF m = 0 THEN <<>> ELSE Cut(Swap(Family(f, n), Len(Family(f, n)), LCG(LCG(r + m))), n) \o Times(f, n, LCG(r), m - 1)

Families == JsonDeserialize(IOEnv.FAMILIES)   \* sequence of [family, dimension]
RECURSIVE Out(_)
Out(m) == IF m > Len(Families) THEN <<>>
          ELSE Times(Families[m][1], Families[m][2], 1 + (Seed % 2000) * 1000003 + m * 7919, Rounds) \o Out(m + 1)
ASSUME JsonSerialize(IOEnv.OUT, Out(1))
=============================================================================
