----------------------------- MODULE BoundsLaws -----------------------------
(* Model checks the range algebra from every small range by every operation *)
EXTENDS Bounds, TLC
CONSTANTS M
VARIABLES b, prev, op
Init == /\ b \in {Range(l, h, s) : l \in -2..2, h \in -3..M, s \in 1..4} /\ Lawful(b)
        /\ prev = b /\ op = <<6, 1, 1, 0>>
Next == \E c \in {0, 1, 2, 3, 4, 5} : \E k \in -2..2 :
          /\ op' = <<c, 1, 1, k>>
          /\ prev' = b
          /\ b' = Apply(<<c, 1, 1, k>>, b)
          /\ Lawful(b')
Small == b.lo \in -4..4 /\ b.hi \in -4..(M + 2)
SizeLaw == SizeIsSelection(b)
\* only the named ends change; the stride only by unit_stride
Ends ==
  /\ op[1] \in {1} => b.hi = prev.hi
  /\ op[1] \in {0} => b.lo = prev.lo
  /\ op[1] = 2 => (b.lo = prev.lo \/ b.hi = prev.hi)
  /\ op[1] = 4 => Count(b) = Count(prev)
  /\ op[1] # 5 => b.st = prev.st
  /\ op[1] = 2 => \A x \in prev.lo..prev.hi : x \in b.lo..b.hi
  /\ (op[1] = 3 /\ op[4] >= 0) => \A x \in prev.lo..prev.hi : x \in b.lo..b.hi
=============================================================================
