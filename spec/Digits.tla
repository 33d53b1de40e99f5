------------------------------- MODULE Digits -------------------------------
(* Natural numbers of any size: sequences of base 10^4 limbs, least significant first, no leading (= trailing) zero
   limb.  Zero is <<>>.                                                                                             *)
EXTENDS Integers, Sequences
NB == 10000
RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE NTrim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE NMulAcc(_, _, _, _, _)
NMulAcc(a, m, c, i, acc) == IF i > Len(a) THEN IF c = 0 THEN acc ELSE IF c < NB THEN Append(acc, c) ELSE acc \o <<c % NB, c \div NB>>
                            ELSE LET x == a[i] * m + c IN NMulAcc(a, m, x \div NB, i + 1, Append(acc, x % NB))
NMulAdd(a, m, c) == IF m = 0 THEN NMulAcc(<<>>, 0, c, 1, <<>>) ELSE NMulAcc(a, m, c, 1, <<>>)    \* a * m + c, m and c up to 10^5
RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpFrom(a, b, Len(a))
RECURSIVE NAddFrom(_, _, _, _, _)
NAddFrom(a, b, c, i, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET x == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + c IN NAddFrom(a, b, x \div NB, i + 1, Append(acc, x % NB))
NAdd(a, b) == NAddFrom(a, b, 0, 1, <<>>)
RECURSIVE NSubFrom(_, _, _, _, _)
NSubFrom(a, b, c, i, acc) ==
  IF i > Len(a) THEN NTrim(acc)
  ELSE LET x == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c IN NSubFrom(a, b, IF x < 0 THEN 1 ELSE 0, i + 1, Append(acc, IF x < 0 THEN x + NB ELSE x))
NSub(a, b) == NSubFrom(a, b, 0, 1, <<>>)          \* a >= b
NDiff(a, b) == IF NCmp(a, b) >= 0 THEN NSub(a, b) ELSE NSub(b, a)
\* multiply by 2^n / 10^n; 10^4 is a limb, 2^13 fits the multiplier
RECURSIVE NMul2(_, _), NMul10(_, _)
NMul2(a, n)  == IF n = 0 THEN a ELSE IF n >= 13 THEN NMul2(NMulAdd(a, 8192, 0), n - 13) ELSE NMulAdd(a, 2 ^ n, 0)
NMul10(a, n) == IF a = <<>> THEN a ELSE IF n \div 4 > 0 THEN NMul10([i \in 1..(n \div 4) |-> 0] \o a, n % 4) ELSE NMulAdd(a, 10 ^ n, 0)
\* from decimal digit values / from limbs of 16 bits, both most significant first
RECURSIVE NOfDigits(_, _, _), NOfLimbs(_, _, _)
NOfDigits(d, i, acc) == IF i > Len(d) THEN acc ELSE NOfDigits(d, i + 1, NMulAdd(acc, 10, d[i]))
NOfLimbs(x, i, acc)  == IF i > Len(x) THEN acc ELSE NOfLimbs(x, i + 1, NMulAdd(NMulAdd(NMulAdd(acc, 256, 0), 256, 0), 1, x[i]))
NDec(d)   == NOfDigits(d, 1, <<>>)
NLimbs(x) == NOfLimbs(x, 1, <<>>)
NInt(x)   == IF x = 0 THEN <<>> ELSE IF x < NB THEN <<x>> ELSE IF x < NB * NB THEN <<x % NB, x \div NB>> ELSE <<x % NB, (x \div NB) % NB, x \div (NB * NB)>>
=============================================================================
