------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: sequences of limbs to base 1000, smallest    *)
(* first, no leading zero limbs; zero is the empty sequence.                 *)
EXTENDS Integers, Sequences, SequencesExt
Base == 1000

RECURSIVE BStrip(_)
BStrip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* limbs that may be too large -> proper limbs
BCarry(c) ==
  LET f == FoldLeft(LAMBDA acc, x : [s |-> Append(acc.s, (x + acc.c) % Base), c |-> (x + acc.c) \div Base], [s |-> <<>>, c |-> 0], c)
      g(n) == <<n % Base, (n \div Base) % Base, n \div (Base * Base)>> IN
  BStrip(f.s \o g(f.c))
BNat(n) == BCarry(<<n>>)
BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BAdd(a, b) == BCarry([i \in 1..(IF Len(a) < Len(b) THEN Len(b) ELSE Len(a)) |-> BLimb(a, i) + BLimb(b, i)])
BSum(a, b, k) == FoldLeft(LAMBDA acc, i : acc + (IF k + 1 - i \in DOMAIN b THEN a[i] * b[k + 1 - i] ELSE 0), 0, [i \in DOMAIN a |-> i])
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BCarry([k \in 1..(Len(a) + Len(b)) |-> BSum(a, b, k)])
BLeq(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in DOMAIN a : a[i] < b[i] /\ SubSeq(a, i + 1, Len(a)) = SubSeq(b, i + 1, Len(b))
BPow(b, n) == FoldLeft(LAMBDA acc, i : BMul(acc, BNat(b)), <<1>>, [i \in 1..n |-> i])
\* 2^n, n up to a few thousand
BPow2(n) == BMul(BPow(1048576, n \div 20), BNat(2 ^ (n % 20)))
\* without the k smallest limbs
BDrop(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))
\* from decimal text (character codes)
BOfText(s) ==
  LET d(i) == s[i] - 48
      n == Len(s)
      limb(k) == LET hi == n - 3 * (k - 1) IN
        d(hi) + (IF hi > 1 THEN 10 * d(hi - 1) ELSE 0) + (IF hi > 2 THEN 100 * d(hi - 2) ELSE 0) IN
  BStrip([k \in 1..((n + 2) \div 3) |-> limb(k)])
=============================================================================
