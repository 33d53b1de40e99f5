----------------------------- MODULE TextNumber -----------------------------
(* Text to number.  64 bit values are four 16 bit limbs, most significant first.                                    *)
EXTENDS Integers, Sequences, Digits
White(c)   == c \in {9, 10, 11, 12, 13, 32}
DigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE -1
Max64  == <<65535, 65535, 65535, 65535>>
MaxI64 == <<32767, 65535, 65535, 65535>>
MinI64 == <<32768, 0, 0, 0>>
Z64    == <<0, 0, 0, 0>>
\* saturating x * b + d
Acc(x, b, d) == LET l4 == x[4] * b + d
                    l3 == x[3] * b + l4 \div 65536
                    l2 == x[2] * b + l3 \div 65536
                    l1 == x[1] * b + l2 \div 65536
                IN IF l1 >= 65536 THEN <<-1>> ELSE <<l1, l2 % 65536, l3 % 65536, l4 % 65536>>
RECURSIVE Leq64(_, _, _)
Leq64(a, b, i) == IF i > 4 THEN TRUE ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE Leq64(a, b, i + 1)
MinOf(a, b) == IF Leq64(a, b, 1) THEN a ELSE b
IsDig(c, b) == DigitOf(c) >= 0 /\ DigitOf(c) < b
\* end of the digits that start at i, and their value (clamped)
RECURSIVE DigEnd(_, _, _), DigVal(_, _, _, _, _)
DigEnd(s, i, b) == IF i <= Len(s) /\ IsDig(s[i], b) THEN DigEnd(s, i + 1, b) ELSE i
DigVal(s, i, e, b, x) == IF i = e THEN x ELSE IF x = Max64 THEN Max64 ELSE LET y == Acc(x, b, DigitOf(s[i])) IN IF y[1] = -1 THEN Max64 ELSE DigVal(s, i + 1, e, b, y)
RECURSIVE SkipWhite(_, _)
SkipWhite(s, i) == IF i <= Len(s) /\ White(s[i]) THEN SkipWhite(s, i + 1) ELSE i
At0(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
\* base and start of the digits of an unsigned number at i
Prefixed(s, i, base) ==
  IF base # 0 THEN <<base, i>>
  ELSE IF At0(s, i) # 48 THEN <<10, i>>
  ELSE IF At0(s, i + 1) \in {88, 120} THEN <<16, i + 2>>
  ELSE IF At0(s, i + 1) \in {66, 98} THEN <<2, i + 2>> ELSE <<8, i + 1>>
\* unsigned number at i: value, and the position past the end
Unsigned(s, i, base) == LET p == Prefixed(s, i, base) IN
  IF p[1] < 1 \/ p[1] > 36 THEN [v |-> Z64, lo |-> i, hi |-> i]
  ELSE LET e == DigEnd(s, p[2], p[1]) IN [v |-> DigVal(s, p[2], e, p[1], Z64), lo |-> i, hi |-> e]
\* a base prefix without digits: the number is zero; whether the letter is consumed is left open
Bare(s, i, base) == LET p == Prefixed(s, i, base) IN base = 0 /\ p[2] = i + 2 /\ DigEnd(s, p[2], p[1]) = p[2]
Extent(p, lo, hi) == IF hi <= lo THEN p[1] = p[2] ELSE p = <<lo - 1, hi - 1>>
SignAt(s, i) == At0(s, i) \in {43, 45} /\ i <= Len(s)
IntOk(e) ==
  LET s == e.s
      i == SkipWhite(s, 1)
      u == Unsigned(s, i, e.b)
      j == IF SignAt(s, i) THEN i + 1 ELSE i
      n == Unsigned(s, j, e.b)
      neg == SignAt(s, i) /\ s[i] = 45
  IN /\ e.same
     \* unsigned
     /\ e.u = u.v
     /\ IF Bare(s, i, e.b) THEN e.q \in {<<i - 1, i>>, <<i - 1, i + 1>>} ELSE Extent(e.q, u.lo, u.hi)
     \* signed; white space after the sign is left open
     /\ \/ j > i /\ White(At0(s, j))
        \/ /\ IF Bare(s, j, e.b) THEN e.p \in {<<i - 1, j>>, <<i - 1, j + 1>>} ELSE IF n.hi = n.lo THEN e.p[1] = e.p[2] ELSE e.p = <<i - 1, n.hi - 1>>
           /\ e.a = IF neg THEN MinOf(n.v, MinI64) ELSE MinOf(n.v, MaxI64)
           /\ e.neg = (neg /\ n.v # Z64)
RadixOk(e) == LET k == DigEnd(e.s, 1, e.b) IN /\ e.same /\ e.u = DigVal(e.s, 1, k, e.b, Z64) /\ e.n = k - 1 /\ e.left = Len(e.s) - (k - 1)

(* --- floating point: sign, digits [. digits] [e [sign] digits]; value = D * 10^x, exactly --- *)
DigSeq(s, lo, hi) == [i \in 1..(hi - lo) |-> s[lo + i - 1] - 48]
RECURSIVE Small(_, _, _)
Small(d, i, x) == IF i > Len(d) THEN x ELSE IF x > 100000 THEN 100001 ELSE Small(d, i + 1, x * 10 + d[i])       \* exponents past 10^5 are all alike
\* FScan: [ok, neg, d (natural), x (power of ten), hi, open (the end may be anywhere from elo to hi)]
FScan(s) ==
  LET i == IF SignAt(s, 1) THEN 2 ELSE 1
      w == DigEnd(s, i, 10)
      dot == At0(s, w) = 46
      f == IF dot THEN DigEnd(s, w + 1, 10) ELSE w
      nd == (w - i) + (IF dot THEN f - w - 1 ELSE 0)
      isE == At0(s, f) \in {69, 101}
      g == IF isE THEN (IF SignAt(s, f + 1) THEN f + 2 ELSE f + 1) ELSE f
      h == IF isE THEN DigEnd(s, g, 10) ELSE f
      ex == IF isE THEN Small(DigSeq(s, g, h), 1, 0) ELSE 0
      eneg == isE /\ SignAt(s, f + 1) /\ s[f + 1] = 45
      ds == DigSeq(s, i, w) \o (IF dot THEN DigSeq(s, w + 1, f) ELSE <<>>)
  IN [ok |-> nd > 0, neg |-> SignAt(s, 1) /\ s[1] = 45, d |-> NDec(ds), nd |-> Len(ds),
      x |-> (IF eneg THEN -ex ELSE ex) - (IF dot THEN f - w - 1 ELSE 0), hi |-> h, bare |-> isE /\ g = h, f |-> f]
\* |m * 2^e - d * 10^x| <= d * 10^x / 2^52, both sides scaled to integers; below the normal range one unit of the last place
Near(m, e, d, x) ==
  LET L == NMul10(NMul2(m, IF e > 0 THEN e ELSE 0), IF x < 0 THEN -x ELSE 0)
      R == NMul10(NMul2(d, IF e < 0 THEN -e ELSE 0), IF x > 0 THEN x ELSE 0)
  IN NCmp(NMul2(NDiff(L, R), 52), R) <= 0
\* one unit in the last place of the subnormal range, 2^-1074, on the scale of Near
NearTiny(m, e, d, x) ==
  LET ee == IF e < -1074 THEN -e ELSE 1074
      px == IF x < 0 THEN -x ELSE 0
      L == NMul10(NMul2(m, ee + e), px)
      R == NMul10(NMul2(d, ee), IF x > 0 THEN x ELSE 0)
      U == NMul10(NMul2(<<1>>, ee - 1074), px)
  IN NCmp(NDiff(L, R), U) <= 0
\* decimal exponent of the leading digit is about Len * 4; used only to tell far out of range values apart
Mag(d, x) == x + 4 * Len(d)
FloatOk(e) ==
  LET t == FScan(e.s) IN
  /\ e.same /\ ~e.nan
  /\ IF ~t.ok THEN e.p[1] = e.p[2] /\ e.m = Z64 /\ ~e.inf
     ELSE /\ IF t.bare THEN e.p[1] = 0 /\ e.p[2] \in (t.f - 1)..(t.hi - 1) ELSE e.p = <<0, t.hi - 1>>
          /\ e.neg = t.neg \/ t.d = <<>>
          /\ IF t.d = <<>> THEN e.m = Z64 /\ ~e.inf
             ELSE IF Mag(t.d, t.x) > 320 THEN e.inf
             ELSE IF Mag(t.d, t.x) < -330 THEN e.m = Z64 /\ ~e.inf
             ELSE IF e.inf THEN NCmp(NMul10(t.d, IF t.x > 0 THEN t.x ELSE 0), NMul10(NMul2(<<1>>, 1023), IF t.x < 0 THEN -t.x ELSE 0)) > 0
                                /\ NCmp(NMul2(NMul10(t.d, IF t.x > 0 THEN t.x ELSE 0), 40), NMul10(NMul2(NSub(NMul2(<<1>>, 40), <<1>>), 1024), IF t.x < 0 THEN -t.x ELSE 0)) > 0
             ELSE LET m == NLimbs(e.m) IN (m # <<>> /\ Near(m, e.e, t.d, t.x)) \/ ((m = <<>> \/ e.e < -1074) /\ NearTiny(m, IF m = <<>> THEN -1074 ELSE e.e, t.d, t.x))
=============================================================================
