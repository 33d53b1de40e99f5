-------------------------------- MODULE BWF --------------------------------
(* Formatted output.  A format text is parsed to items; each specifier renders a value to a field.  Text is a sequence
   of bytes.  A value is a record with a kind (k); 64 bit values are four 16 bit limbs, most significant first.      *)
EXTENDS Integers, Sequences, Digits
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Rep(c, n)  == [i \in 1..MaxI(n, 0) |-> c]
Upto(s, n) == SubSeq(s, 1, MinI(n, Len(s)))
Digit(c)   == c \in 48..57
HexVal(c)  == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IntMax     == 2147483647
LowerC(c)  == IF c \in 65..90 THEN c + 32 ELSE c
UpperC(c)  == IF c \in 97..122 THEN c - 32 ELSE c
Lower(s)   == [i \in 1..Len(s) |-> LowerC(s[i])]
Upper(s)   == [i \in 1..Len(s) |-> UpperC(s[i])]
At(s, i)   == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
Find(s, c, i) == LET w == {j \in i..Len(s) : s[j] = c} IN IF w = {} THEN 0 ELSE CHOOSE j \in w : \A x \in w : j <= x
\* characters: < 60  > 62  ^ 94  = 61  + 43  - 45  sp 32  # 35  0 48  . 46  , 44  % 37  : 58  { 123  } 125
AlignCs == {60, 61, 62, 94}
SignCs  == {32, 43, 45}
TypeCs  == {98, 66, 100, 103, 111, 112, 80, 115, 83, 120, 88}      \* b B d g o p P s S x X
NumCs   == {98, 66, 100, 111, 120, 88}
(* --- specifiers --- *)
Default == [name |-> <<>>, idx |-> -1, fill |-> 32, align |-> 0, sign |-> 45, lead |-> FALSE, min |-> 0, prec |-> -1, type |-> 103, max |-> -1, ext |-> <<>>]
Bad == [name |-> <<>>, idx |-> -2]
RECURSIVE NumEnd(_, _), NumVal(_, _, _, _)
NumEnd(s, i) == IF Digit(At(s, i)) THEN NumEnd(s, i + 1) ELSE i
NumVal(s, i, e, v) == IF i = e THEN v ELSE IF v > 214748363 THEN IntMax ELSE NumVal(s, i + 1, e, v * 10 + s[i] - 48)
\* what follows the fill: each step consumes from i and hands on
PType(r, s, i) == IF At(s, i) \in TypeCs THEN [r EXCEPT !.type = s[i]] ELSE r
PMax(r, s, i)  == IF i <= Len(s) /\ s[i] = 44
                  THEN LET e == NumEnd(s, i + 1) IN IF e = i + 1 THEN Bad ELSE PType([r EXCEPT !.max = NumVal(s, i + 1, e, 0)], s, e)
                  ELSE r
PTypeMax(r, s, i) == IF At(s, i) \in TypeCs THEN PMax([r EXCEPT !.type = s[i]], s, i + 1) ELSE PMax(r, s, i)
PPrec(r, s, i) == IF i <= Len(s) /\ s[i] = 46
                  THEN LET e == NumEnd(s, i + 1) IN IF e = i + 1 THEN Bad ELSE PTypeMax([r EXCEPT !.prec = NumVal(s, i + 1, e, 0)], s, e)
                  ELSE PTypeMax(r, s, i)
PMin(r, s, i)  == LET e == NumEnd(s, i) IN PPrec(IF e = i THEN r ELSE [r EXCEPT !.min = NumVal(s, i, e, 0)], s, e)
PZero(r, s, i) == IF At(s, i) = 48 THEN PMin([r EXCEPT !.fill = 48, !.align = IF @ = 0 THEN 61 ELSE @], s, i + 1) ELSE PMin(r, s, i)
PLead(r, s, i) == IF At(s, i) = 35 THEN PZero([r EXCEPT !.lead = TRUE], s, i + 1) ELSE PZero(r, s, i)
PSign(r, s, i) == IF At(s, i) \in SignCs THEN PLead([r EXCEPT !.sign = s[i]], s, i + 1) ELSE PLead(r, s, i)
PStyle(r, s)   ==
  IF s = <<>> THEN r
  ELSE IF s[1] = 37 THEN IF Len(s) < 4 \/ At(s, 4) \notin AlignCs \/ HexVal(s[2]) < 0 \/ HexVal(s[3]) < 0 THEN Bad
                         ELSE PSign([r EXCEPT !.fill = HexVal(s[2]) * 16 + HexVal(s[3]), !.align = s[4]], s, 5)
  ELSE IF Len(s) > 1 /\ s[2] \in AlignCs THEN PSign([r EXCEPT !.fill = s[1], !.align = s[2]], s, 3)
  ELSE IF s[1] \in AlignCs THEN PSign([r EXCEPT !.align = s[1]], s, 2)
  ELSE PSign(r, s, 1)
Cut(s, c) == LET p == Find(s, c, 1) IN IF p = 0 THEN <<s, <<>>>> ELSE <<SubSeq(s, 1, p - 1), SubSeq(s, p + 1, Len(s))>>
ParseSpec(t) ==
  LET a == Cut(t, 58)
      b == Cut(a[2], 58)
      all == a[1] # <<>> /\ NumEnd(a[1], 1) = Len(a[1]) + 1
      r == [Default EXCEPT !.name = a[1], !.idx = IF all THEN NumVal(a[1], 1, Len(a[1]) + 1, 0) ELSE -1]
      q == PStyle(r, b[1])
  IN IF q = Bad THEN Bad ELSE [q EXCEPT !.ext = b[2]]
(* --- the format text --- *)
\* items: <<"lit", text>>, <<"spec", specifier>>, <<"bad">> (malformed from here on)
RECURSIVE Items(_, _, _)
Items(s, i, from) ==                          \* from: start of the literal being collected
  LET lit(e) == IF e > from THEN <<<<"lit", SubSeq(s, from, e - 1)>>>> ELSE <<>>
  IN IF i > Len(s) THEN lit(i)
     ELSE IF s[i] \notin {123, 125} THEN Items(s, i + 1, from)
     ELSE IF i = Len(s) THEN Append(lit(i), <<"bad">>)
     ELSE IF s[i + 1] = s[i] THEN lit(i + 1) \o Items(s, i + 2, i + 2)
     ELSE IF s[i] = 125 THEN Append(lit(i), <<"bad">>)
     ELSE LET e == Find(s, 125, i + 1)
          IN IF e = 0 THEN Append(lit(i), <<"bad">>)
             ELSE LET q == ParseSpec(SubSeq(s, i + 1, e - 1))
                  IN IF q = Bad THEN Append(lit(i), <<"bad">>) ELSE Append(lit(i), <<"spec", q>>) \o Items(s, e + 1, e + 1)
Parse(s)     == Items(s, 1, 1)
Malformed(s) == LET q == Parse(s) IN q # <<>> /\ q[Len(q)][1] = "bad"
(* --- fields --- *)
\* sign / prefix, fill and body, at least min wide
Pad(q, al, head, body) ==
  LET d == q.min - Len(head) - Len(body)
  IN CASE al = 62 -> Rep(q.fill, d) \o head \o body
       [] al = 94 -> Rep(q.fill, d \div 2) \o head \o body \o Rep(q.fill, (d + 1) \div 2)
       [] al = 61 -> head \o Rep(q.fill, d) \o body
       [] OTHER   -> head \o body \o Rep(q.fill, d)
Clip(q, t) == IF q.max >= 0 THEN Upto(t, q.max) ELSE t
Field(q, t) == Clip(q, Pad(q, IF q.align = 61 THEN 0 ELSE q.align, <<>>, t))
(* --- numbers --- *)
Dg(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
RECURSIVE StripZ(_)
StripZ(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZ(Tail(d)) ELSE d
RECURSIVE BitsOf(_, _), PerLimb(_, _)
BitsOf(x, n) == [i \in 1..n |-> (x \div 2 ^ (n - i)) % 2]
PerLimb(x, i) == IF i > Len(x) THEN <<>> ELSE BitsOf(x[i], 16) \o PerLimb(x, i + 1)
\* digit values in base 2^g of the limbs
Group(x, g) == LET b == PerLimb(x, 1)
                   pad == (g - (Len(b) % g)) % g
                   c == Rep(0, pad) \o b
                   RECURSIVE V(_, _, _)
                   V(from, n, acc) == IF n = 0 THEN acc ELSE V(from + 1, n - 1, acc * 2 + c[from])
               IN [i \in 1..(Len(c) \div g) |-> V((i - 1) * g + 1, g, 0)]
\* decimal digits of a natural number (Digits)
RECURSIVE DecFrom(_, _)
Four(x) == <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
DecFrom(n, i) == IF i = 0 THEN <<>> ELSE Four(n[i]) \o DecFrom(n, i - 1)
DecDigits(n) == IF n = <<>> THEN <<0>> ELSE StripZ(DecFrom(n, Len(n)))
Txt(d, up) == [i \in 1..Len(d) |-> Dg(d[i], up)]
Dec(n) == Txt(DecDigits(n), FALSE)                 \* natural number to text
DecI(i) == IF i < 0 THEN <<45>> \o Dec(NInt(-i)) ELSE Dec(NInt(i))
DigitsOf(x, ty) == CASE ty \in {120, 88} -> Txt(StripZ(Group(x, 4)), ty = 88)
                     [] ty \in {98, 66}  -> Txt(StripZ(PerLimb(x, 1)), FALSE)
                     [] ty = 111         -> Txt(StripZ(Group(x, 3)), FALSE)
                     [] OTHER            -> Dec(NLimbs(x))
Prefix(q) == IF ~q.lead THEN <<>> ELSE CASE q.type \in {120, 88, 98, 66} -> <<48, q.type>> [] q.type = 111 -> <<48>> [] OTHER -> <<>>
SignOf(q, neg) == IF q.sign = 32 THEN <<>> ELSE IF neg THEN <<45>> ELSE IF q.sign = 43 THEN <<43>> ELSE <<>>
Integer(q, neg, x) == Pad(q, q.align, SignOf(q, neg) \o Prefix(q), DigitsOf(x, q.type))
Small(i) == <<0, 0, i \div 65536, i % 65536>>
HexOf(t, up) == [i \in 1..(2 * Len(t)) |-> Dg(IF i % 2 = 1 THEN t[(i + 1) \div 2] \div 16 ELSE t[i \div 2] % 16, up)]
\* floating point, n / 2^j: exact decimal n * 5^j at scale j, rounded half up at p places
RECURSIVE Fives(_, _)
Fives(n, j) == IF j = 0 THEN n ELSE Fives(NMulAdd(n, 5, 0), j - 1)
Zeros(n) == Rep(0, n)
Fixed(d, p) == LET e == Zeros(p + 1 - Len(d)) \o d IN Txt(SubSeq(e, 1, Len(e) - p), FALSE) \o <<46>> \o Txt(SubSeq(e, Len(e) - p + 1, Len(e)), FALSE)
Rounded(n, j, p) == LET d == DecDigits(Fives(n, j))
                        e == Zeros(j + 1 - Len(d)) \o d
                        keep == SubSeq(e, 1, Len(e) - (j - p))
                    IN IF p >= j THEN Fixed(e \o Zeros(p - j), p)
                       ELSE Fixed(DecDigits(NAdd(NDec(keep), IF e[Len(keep) + 1] >= 5 THEN <<1>> ELSE <<>>)), p)
Float(q, neg, n, j) == LET p == IF q.prec < 0 THEN 2 ELSE q.prec
                           sg == SignOf(q, neg)
                       IN IF j = 0 THEN Pad(q, q.align, sg, Dec(NInt(n)))
                          ELSE IF p = 0 THEN Pad(q, q.align, sg, Dec(NInt(n \div 2 ^ j)))
                          ELSE Pad(q, q.align, sg, Rounded(NInt(n), j, p))
(* --- text like values --- *)
Str(q, s) == LET t == IF q.prec > 0 THEN Upto(s, q.prec) ELSE s
             IN CASE q.type \in {120, 88} -> Pad(q, q.align, IF q.lead THEN <<48, q.type>> ELSE <<>>, HexOf(t, q.type = 88))
                  [] q.type = 115 -> Lower(t)
                  [] q.type = 83  -> Upper(t)
                  [] OTHER        -> t
Nil(q) == CASE q.type = 115 -> <<110, 117, 108, 108>>
            [] q.type = 83  -> <<78, 85, 76, 76>>
            [] q.type = 103 -> <<>>
            [] OTHER -> Integer([q EXCEPT !.lead = TRUE, !.type = CASE @ = 112 -> 120 [] @ = 80 -> 88 [] OTHER -> @], FALSE, <<0, 0, 0, 0>>)
Ptr(q, x) == IF x = <<0, 0, 0, 0>> THEN Nil(q)
             ELSE Integer([q EXCEPT !.lead = TRUE, !.type = CASE @ \in {103, 112} -> 120 [] @ = 80 -> 88 [] OTHER -> @], FALSE, x)
CPtr(q, s, x) == IF q.type \in {120, 88, 112, 80} THEN Ptr(q, x) ELSE Str(q, s)
Bool(q, b) == CASE q.type = 115 -> IF b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
                [] q.type = 83  -> IF b THEN <<84, 82, 85, 69>> ELSE <<70, 65, 76, 83, 69>>
                [] OTHER        -> Integer(q, FALSE, <<0, 0, 0, IF b THEN 1 ELSE 0>>)
RECURSIVE Blocks(_, _, _, _)
Blocks(q, t, n, first) == IF t = <<>> THEN <<>>
                          ELSE (IF first THEN <<>> ELSE <<32>>) \o (IF q.lead THEN <<48, q.type>> ELSE <<>>) \o HexOf(Upto(t, n), q.type = 88)
                               \o Blocks(q, SubSeq(t, n + 1, Len(t)), n, FALSE)
\* memory span: hex dump in blocks, or size and address
Span(q, t, esize, addr) == IF q.type \in {120, 88}
                           THEN Blocks(q, t, IF q.prec > 0 THEN q.prec ELSE IF esize > 0 THEN esize ELSE Len(t), TRUE)
                           ELSE <<48, 120>> \o DigitsOf(Small(Len(t)), 120) \o <<64>> \o Ptr([Default EXCEPT !.type = 112], addr)
\* the date (GMT) of a time: civil date from the day number
Div(a, b) == a \div b
Month(m) == CASE m = 1 -> <<74,97,110>> [] m = 2 -> <<70,101,98>> [] m = 3 -> <<77,97,114>> [] m = 4 -> <<65,112,114>> [] m = 5 -> <<77,97,121>>
              [] m = 6 -> <<74,117,110>> [] m = 7 -> <<74,117,108>> [] m = 8 -> <<65,117,103>> [] m = 9 -> <<83,101,112>> [] m = 10 -> <<79,99,116>>
              [] m = 11 -> <<78,111,118>> [] OTHER -> <<68,101,99>>
Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
MDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE YearOf(_, _), MonthOf(_, _, _)
YearOf(d, y) == LET n == IF Leap(y) THEN 366 ELSE 365 IN IF d < n THEN <<y, d>> ELSE YearOf(d - n, y + 1)
MonthOf(d, y, m) == IF d < MDays(y, m) THEN <<m, d + 1>> ELSE MonthOf(d - MDays(y, m), y, m + 1)
Two(x) == <<48 + (x \div 10), 48 + (x % 10)>>
DateText(t) == LET yd == YearOf(t \div 86400, 1970)
                   md == MonthOf(yd[2], yd[1], 1)
                   s == t % 86400
               IN DecI(yd[1]) \o <<32>> \o Month(md[1]) \o <<32>> \o Two(md[2]) \o <<32>> \o Two(s \div 3600) \o <<58>> \o Two((s \div 60) % 60) \o <<58>> \o Two(s % 60)
Brack(t) == <<91>> \o t \o <<93>>
Has(s, c) == Find(s, c, 1) > 0
ErrnoText(q, e, short, long) ==
  IF q.type \in NumCs THEN Brack(DecI(e))
  ELSE LET sp == q.ext = <<>> \/ Has(q.ext, 115)
           lp == q.ext = <<>> \/ Has(q.ext, 108)
       IN (IF sp THEN short ELSE <<>>) \o (IF sp /\ lp THEN <<58, 32>> ELSE <<>>) \o (IF lp THEN long ELSE <<>>)
          \o (IF q.type \notin {115, 83} THEN <<32>> \o Brack(DecI(e)) ELSE <<>>)
ErrCode(q, e, text, short) ==        \* short: text is a short name, formatted as text, otherwise a message
  IF q.type \in NumCs THEN Integer(q, e < 0, Small(IF e < 0 THEN -e ELSE e))
  ELSE (IF short THEN Str(q, text) ELSE text) \o (IF q.type \notin {115, 83} THEN <<32>> \o Brack(DecI(e)) ELSE <<>>)
RECURSIVE Times(_, _), UnHex(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE t \o Times(t, n - 1)
UnHex(t, i) == IF i + 1 > Len(t) THEN <<>> ELSE <<HexVal(t[i]) * 16 + HexVal(t[i + 1])>> \o UnHex(t, i + 2)
ExceptionWord == <<69, 120, 99, 101, 112, 116, 105, 111, 110, 32, 45, 32>>
BadIndex(i, n) == <<123, 66, 65, 68, 95, 65, 82, 71, 95, 73, 78, 68, 69, 88, 58>> \o DecI(i) \o <<32, 111, 102, 32>> \o DecI(n) \o <<125>>
BadName(n) == <<123, 126>> \o n \o <<126, 125>>
(* --- printing --- *)
LocalWord == <<108, 111, 99, 97, 108>>
RECURSIVE Render(_, _), Printed(_, _, _), Out(_, _, _, _, _)
\* what the formatter of a value writes for the specifier, before the field is adjusted to min and max
Render(q, a) ==
  CASE a.k = "int"  -> Integer(q, a.neg, a.x)
    [] a.k = "str"  -> Str(q, a.t)
    [] a.k = "cstr" -> CPtr(q, a.t, a.x)
    [] a.k = "nil"  -> Nil(q)
    [] a.k = "ptr"  -> Ptr(q, a.x)
    [] a.k = "char" -> <<a.c>>
    [] a.k = "raw"  -> a.t
    [] a.k = "bool" -> Bool(q, a.b)
    [] a.k = "flt"  -> Float(q, a.neg, a.n, a.j)
    [] a.k = "word" -> Pad(q, q.align, SignOf(q, a.neg), a.t)         \* infinity, not a number
    [] a.k = "hex"  -> Pad(q, q.align, IF q.lead THEN <<48, IF q.type = 88 THEN 88 ELSE 120>> ELSE <<>>, HexOf(a.t, q.type = 88))
    [] a.k = "span" -> Span(q, a.t, a.n, a.x)
    [] a.k = "date" -> IF q.type \in NumCs THEN Integer(q, FALSE, Small(a.n)) ELSE DateText(a.n + IF q.ext = LocalWord THEN 19800 ELSE 0)   \* the zone of the driver: +5:30
    [] a.k = "errno" -> ErrnoText(q, a.n, a.t, a.m)
    [] a.k = "ec"   -> ErrCode(q, a.n, a.t, a.b)
    [] a.k = "pat"  -> Times(a.t, a.n)
    [] a.k = "unhex" -> UnHex(a.t, 1)
    [] a.k = "bits" -> [i \in 1..Len(a.v) |-> 48 + a.v[i]]
    [] a.k = "exc"  -> ExceptionWord \o Str(q, a.t)
    [] a.k = "echo" -> q.name \o <<124, q.fill, IF q.align = 0 THEN 46 ELSE q.align, q.sign, IF q.lead THEN 35 ELSE 46, q.type>>   \* the specifier itself
                       \o DecI(q.min) \o <<44>> \o DecI(q.prec) \o <<44>> \o DecI(q.max) \o <<124>> \o q.ext
    [] a.k = "sub"  -> Printed(a.t, a.args, a.names)
Named(names, n) == LET w == {i \in 1..Len(names) : names[i].n = n} IN IF w = {} THEN [k |-> "raw", t |-> BadName(n)] ELSE names[CHOOSE i \in w : \A j \in w : j <= i].v
\* items from i on; next: the next unnamed argument
Out(its, i, next, args, names) ==
  IF i > Len(its) \/ its[i][1] = "bad" THEN <<>>
  ELSE IF its[i][1] = "lit" THEN its[i][2] \o Out(its, i + 1, next, args, names)
  ELSE LET q == its[i][2]
           idx == IF q.name = <<>> THEN next ELSE q.idx
           nx == IF q.name = <<>> THEN next + 1 ELSE next
           t == IF idx >= Len(args) THEN BadIndex(idx, Len(args)) ELSE IF idx >= 0 THEN Render(q, args[idx + 1]) ELSE Render(q, Named(names, q.name))
       IN Field(q, t) \o Out(its, i + 1, nx, args, names)
Printed(fmt, args, names) == Out(Parse(fmt), 1, 0, args, names)
=============================================================================
