------------------------------- MODULE IPText -------------------------------
(* The text forms of addresses, ranges, networks and services.  Text is a sequence of byte values. An address is a
   sequence of 16 bit limbs: two for IPv4, eight for IPv6; <<>> is "not an address".                             *)
EXTENDS Integers, Sequences, FiniteSets
L == INSTANCE Limbs WITH LB <- 16

NONE  == <<>>
Space == {9, 10, 11, 12, 13, 32}
DOT == 46  COLON == 58  LBR == 91  RBR == 93  SLASH == 47  DASH == 45
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Idx(t, c)  == {i \in 1..Len(t) : t[i] = c}
LTrim(t) == LET S == {i \in 1..Len(t) : t[i] \notin Space} IN IF S = {} THEN <<>> ELSE SubSeq(t, MinS(S), Len(t))
RTrim(t) == LET S == {i \in 1..Len(t) : t[i] \notin Space} IN IF S = {} THEN <<>> ELSE SubSeq(t, 1, MaxS(S))
Trim(t)  == RTrim(LTrim(t))
RECURSIVE Split(_, _)
Split(t, c) == LET S == Idx(t, c) IN IF S = {} THEN <<t>> ELSE <<SubSeq(t, 1, MinS(S) - 1)>> \o Split(SubSeq(t, MinS(S) + 1, Len(t)), c)
Digit(c) == IF 48 <= c /\ c <= 57 THEN c - 48 ELSE IF 97 <= c /\ c <= 102 THEN c - 87 ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE 99
AllDigits(t, base) == Len(t) > 0 /\ \A i \in 1..Len(t) : Digit(t[i]) < base
\* value as <<high, low>> 16 bit limbs, saturating the high limb.
RECURSIVE NumFrom(_, _, _)
NumFrom(t, base, i) ==
  IF i = 0 THEN <<0, 0>>
  ELSE LET p == NumFrom(t, base, i - 1)
           lo == p[2] * base + Digit(t[i])
           hi == p[1] * base + lo \div 65536
       IN <<IF hi > 100000 THEN 100000 ELSE hi, lo % 65536>>
Num(t, base) == NumFrom(t, base, Len(t))
\* brackets around the whole text; <<FALSE, t>> if they do not match
Unbracket(t) == IF t # <<>> /\ t[1] = LBR THEN IF t[Len(t)] = RBR /\ Len(t) > 1 THEN <<TRUE, SubSeq(t, 2, Len(t) - 1)>> ELSE <<FALSE, t>> ELSE <<TRUE, t>>

(* --- IPv4: up to four parts, each decimal, octal (leading 0) or hexadecimal (leading 0x); the last part fills
   all of the remaining bytes.                                                                                 *)
IsHex(p) == Len(p) > 1 /\ p[1] = 48 /\ p[2] \in {120, 88}
PartOk(p)  == IF IsHex(p) THEN AllDigits(SubSeq(p, 3, Len(p)), 16)
              ELSE IF p # <<>> /\ p[1] = 48 THEN AllDigits(p, 8) ELSE AllDigits(p, 10)
PartVal(p) == IF IsHex(p) THEN Num(SubSeq(p, 3, Len(p)), 16) ELSE IF p[1] = 48 THEN Num(p, 8) ELSE Num(p, 10)
PartFree(p) == (IsHex(p) /\ Len(p) = 2) \/ (Len(p) > 1 /\ p[1] = 48 /\ p[2] \in {98, 66})   \* "0x", "0b.." : unspecified
Bytes4(v) == <<v[1] \div 256, v[1] % 256, v[2] \div 256, v[2] % 256>>
Parse4(t0) ==
  LET u == Unbracket(Trim(t0))
      ps == Split(u[2], DOT)
      n  == Len(ps)
  IN IF ~u[1] \/ n > 4 \/ \E i \in 1..n : ~PartOk(ps[i]) THEN NONE
     ELSE LET vs == [i \in 1..n |-> PartVal(ps[i])]
              lb == Bytes4(vs[n])
          IN IF vs[n][1] > 65535 \/ (\E i \in 1..(n - 1) : vs[i][1] # 0 \/ vs[i][2] > 255) \/ (\E i \in 1..(n - 1) : lb[i] # 0) THEN NONE
             ELSE LET b == [i \in 1..4 |-> IF i < n THEN vs[i][2] ELSE lb[i]]
                  IN <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>
Free4(t0) == LET ps == Split(Unbracket(Trim(t0))[2], DOT) IN \E i \in 1..Len(ps) : PartFree(ps[i])

(* --- IPv6: RFC 4291 without embedded IPv4 --- *)
GroupsOk(gs) == \A i \in 1..Len(gs) : Len(gs[i]) \in 1..4 /\ AllDigits(gs[i], 16)
Groups(t) == IF t = <<>> THEN <<>> ELSE Split(t, COLON)
GVal(gs) == [i \in 1..Len(gs) |-> Num(gs[i], 16)[2]]
Parse6(t0) ==
  LET u == Unbracket(Trim(t0))
      t == u[2]
      D == {i \in 1..(Len(t) - 1) : t[i] = COLON /\ t[i + 1] = COLON}
  IN IF ~u[1] \/ t = <<>> THEN NONE
     ELSE IF D = {}
     THEN LET gs == Groups(t) IN IF Len(gs) = 8 /\ GroupsOk(gs) THEN GVal(gs) ELSE NONE
     ELSE LET d == MinS(D)
              lg == Groups(SubSeq(t, 1, d - 1))
              rg == Groups(SubSeq(t, d + 2, Len(t)))
          IN IF Cardinality(D) = 1 /\ GroupsOk(lg) /\ GroupsOk(rg) /\ Len(lg) + Len(rg) <= 7
             THEN GVal(lg) \o L!Zero(8 - Len(lg) - Len(rg)) \o GVal(rg) ELSE NONE
\* The generic parser looks at the start of the text to pick the family; "free" if an IPv4 address has no early dot.
EarlyDot(t0) == LET t == LTrim(t0) IN \E i \in Idx(t, DOT) : i <= 5
ParseAny(t) == IF Parse6(t) # NONE THEN Parse6(t) ELSE Parse4(t)
FreeAny(t)  == Free4(t) \/ (Parse4(t) # NONE /\ ~EarlyDot(t))

(* --- printing --- *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
HexDigit(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
RECURSIVE Hex(_, _)
Hex(n, up) == IF n < 16 THEN <<HexDigit(n, up)>> ELSE Hex(n \div 16, up) \o <<HexDigit(n % 16, up)>>
Pad(t, n, c) == [i \in 1..(IF Len(t) >= n THEN 0 ELSE n - Len(t)) |-> c] \o t
RECURSIVE Join(_, _)
Join(ts, c) == IF Len(ts) = 0 THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<c>> \o Join(Tail(ts), c)
Octets(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
Canon4(a) == Join([i \in 1..4 |-> Dec(Octets(a)[i])], DOT)
Full4(a)  == Join([i \in 1..4 |-> Pad(Dec(Octets(a)[i]), 3, 48)], DOT)
Hex4(a, up) == Join([i \in 1..4 |-> Hex(Octets(a)[i], up)], DOT)
Full6(a, up)  == Join([i \in 1..8 |-> Pad(Hex(a[i], up), 4, 48)], COLON)
\* the first longest run of at least two zero groups becomes "::" (RFC 5952)
Runs(a) == {r \in (1..8) \X (1..8) : r[1] < r[2] /\ \A k \in r[1]..r[2] : a[k] = 0}
BestRun(a) == CHOOSE r \in Runs(a) : \A s \in Runs(a) : s[2] - s[1] < r[2] - r[1] \/ (s[2] - s[1] = r[2] - r[1] /\ r[1] <= s[1])
Sub(a, i, j, up) == Join([k \in 1..(j - i + 1) |-> Hex(a[i + k - 1], up)], COLON)
Canon6(a, up) == IF Runs(a) = {} THEN Sub(a, 1, 8, up)
             ELSE LET r == BestRun(a) IN (IF r[1] = 1 THEN <<>> ELSE Sub(a, 1, r[1] - 1, up)) \o <<COLON, COLON>> \o (IF r[2] = 8 THEN <<>> ELSE Sub(a, r[2] + 1, 8, up))
Canon(a) == IF Len(a) = 2 THEN Canon4(a) ELSE Canon6(a, FALSE)
Full(a)  == IF Len(a) = 2 THEN Full4(a) ELSE Full6(a, FALSE)

(* --- ranges and networks --- *)
Parse(n, t) == IF n = 2 THEN Parse4(t) ELSE Parse6(t)
FreeA(n, t) == n = 2 /\ Free4(t)
Val3(t) == IF Len(t) > 6 THEN 999999 ELSE LET v == Num(t, 10) IN v[1] * 65536 + v[2]
\* "" / text that is not a plain number: not a width; leading zeros and other radices are unspecified.
WidthOf(t) == IF AllDigits(t, 10) /\ (t[1] # 48 \/ Len(t) = 1) THEN Val3(t) ELSE 999999
WidthFree(t) == t # <<>> /\ t[1] = 48 /\ Len(t) > 1
Seps(t) == {i \in 1..Len(t) : t[i] \in {SLASH, DASH}}
\* <<>> or <<min, max>> (which may be an empty range)
ParseRange(n, t) ==
  IF Seps(t) = {} THEN LET a == Parse(n, t) IN IF a = NONE THEN <<>> ELSE <<a, a>>
  ELSE LET k == MinS(Seps(t))
           x == SubSeq(t, 1, k - 1)
           y == SubSeq(t, k + 1, Len(t))
           a == Parse(n, x)
       IN IF t[k] = SLASH
          THEN IF a # NONE /\ WidthOf(y) <= 16 * n THEN <<L!NetMin(a, WidthOf(y)), L!NetMax(a, WidthOf(y))>> ELSE <<>>
          ELSE LET b == Parse(n, y) IN IF a # NONE /\ b # NONE THEN <<a, b>> ELSE <<>>
FreeRange(n, t) ==
  IF Seps(t) = {} THEN FreeA(n, t)
  ELSE LET k == MinS(Seps(t))
           x == SubSeq(t, 1, k - 1)
           y == SubSeq(t, k + 1, Len(t))
       IN FreeA(n, x) \/ (t[k] = SLASH /\ WidthFree(y)) \/ (t[k] = DASH /\ FreeA(n, y))
\* <<>> or <<address, width>>
ParseNet(n, t) ==
  IF Idx(t, SLASH) = {} THEN <<>>
  ELSE LET k == MaxS(Idx(t, SLASH))
           a == Parse(n, SubSeq(t, 1, k - 1))
           y == SubSeq(t, k + 1, Len(t))
           m == Parse(n, y)
       IN IF a = NONE THEN <<>>
          ELSE IF WidthOf(y) <= 16 * n THEN <<L!NetMin(a, WidthOf(y)), WidthOf(y)>>
          ELSE IF WidthOf(y) > 128 /\ m # NONE /\ L!IsMask(m) THEN <<L!NetMin(a, L!Signif(m)), L!Signif(m)>>
          ELSE <<>>
FreeNet(n, t) ==
  IF Idx(t, SLASH) = {} THEN FALSE
  ELSE LET k == MaxS(Idx(t, SLASH)) IN FreeA(n, SubSeq(t, 1, k - 1)) \/ WidthFree(SubSeq(t, k + 1, Len(t))) \/ FreeA(n, SubSeq(t, k + 1, Len(t)))
RangeText(lo, hi) == IF L!Leq(lo, hi) THEN Canon(lo) \o <<DASH>> \o Canon(hi) ELSE <<42, 45, 42>>
CompactText(lo, hi) == IF ~L!Leq(lo, hi) THEN <<42, 45, 42>>
                       ELSE IF lo = hi THEN Canon(lo)
                       ELSE IF L!NetOf(lo, hi) >= 0 THEN Canon(lo) \o <<SLASH>> \o Dec(L!NetOf(lo, hi))
                            ELSE Canon(lo) \o <<DASH>> \o Canon(hi)

(* --- services: address and port --- *)
PortOk(t) == AllDigits(t, 10) /\ Val3(t) <= 65535
PortFree(t) == Len(t) > 1 /\ t[1] = 48
\* <<addr text, port text, well formed>>
Tokens(t0) ==
  LET t == LTrim(t0)
      C == Idx(t, COLON)
  IN IF t = <<>> THEN <<<<>>, <<>>, FALSE>>
     ELSE IF t[1] = LBR
     THEN IF Idx(t, RBR) = {} THEN <<<<>>, <<>>, FALSE>>
          ELSE LET k == MinS(Idx(t, RBR))
                   r == SubSeq(t, k + 1, Len(t))
               IN IF r = <<>> THEN <<SubSeq(t, 2, k - 1), <<>>, TRUE>>
                  ELSE IF r[1] = COLON /\ AllDigits(Tail(r), 10) THEN <<SubSeq(t, 2, k - 1), Tail(r), TRUE>>
                  ELSE <<<<>>, <<>>, FALSE>>
     ELSE IF Cardinality(C) = 1
     THEN LET k == MinS(C) IN IF AllDigits(SubSeq(t, k + 1, Len(t)), 10) THEN <<SubSeq(t, 1, k - 1), SubSeq(t, k + 1, Len(t)), TRUE>> ELSE <<<<>>, <<>>, FALSE>>
     ELSE <<t, <<>>, TRUE>>
\* <<>> or <<address, port>>; n = 0: any family.
ParseN(n, t) == IF n = 0 THEN ParseAny(t) ELSE Parse(n, t)
ParseSrv(n, t) ==
  LET k == Tokens(t)
      a == ParseN(n, k[1])
  IN IF ~k[3] \/ a = NONE \/ (k[2] # <<>> /\ ~PortOk(k[2])) THEN <<>>
     ELSE <<a, IF k[2] = <<>> THEN 0 ELSE Val3(k[2])>>
\* Inner white space, a leading zero in the port and unspecified addresses: either answer will do.
FreeSrv(n, t) ==
  LET k == Tokens(t) IN
    (\E i \in 1..Len(Trim(t)) : Trim(t)[i] \in Space) \/ PortFree(k[2])
    \/ (IF n = 0 THEN FreeAny(k[1]) ELSE FreeA(n, k[1]))
SrvText(a, p) == IF p = 0 THEN Canon(a) ELSE IF Len(a) = 2 THEN Canon(a) \o <<COLON>> \o Dec(p) ELSE <<LBR>> \o Canon(a) \o <<RBR, COLON>> \o Dec(p)
=============================================================================
