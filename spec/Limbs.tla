------------------------------- MODULE Limbs -------------------------------
(* Fixed width unsigned numbers as sequences of LB bit limbs, most significant first.  Addresses are such numbers:
   IPv4 is two 16 bit limbs, IPv6 is eight.                                                                     *)
EXTENDS Integers, Sequences
CONSTANT LB
B == 2 ^ LB
Width(a) == LB * Len(a)
Zero(n)  == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> B - 1]
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)              \* -1, 0, 1; same width only
Lt(a, b)  == Cmp(a, b) < 0
Leq(a, b) == Cmp(a, b) <= 0
\* add / subtract one, modulo the width
Inc(a) == [i \in 1..Len(a) |-> IF \A j \in (i+1)..Len(a) : a[j] = B - 1 THEN (a[i] + 1) % B ELSE a[i]]
Dec(a) == [i \in 1..Len(a) |-> IF \A j \in (i+1)..Len(a) : a[j] = 0 THEN (a[i] + B - 1) % B ELSE a[i]]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* number of the leading w bits which are in limb i
Keep(w, i) == Clamp(w - (i - 1) * LB, 0, LB)
\* a with every bit past the leading w bits cleared / set: the first and last address of the network a/w
NetMin(a, w) == [i \in 1..Len(a) |-> a[i] - (a[i] % 2 ^ (LB - Keep(w, i)))]
NetMax(a, w) == [i \in 1..Len(a) |-> a[i] - (a[i] % 2 ^ (LB - Keep(w, i))) + 2 ^ (LB - Keep(w, i)) - 1]
At(a, i)  == IF 1 <= i /\ i <= Len(a) THEN a[i] ELSE 0
Shl(a, n) == LET q == n \div LB  r == n % LB
             IN [i \in 1..Len(a) |-> (At(a, i + q) % 2 ^ (LB - r)) * 2 ^ r + At(a, i + q + 1) \div 2 ^ (LB - r)]
Shr(a, n) == LET q == n \div LB  r == n % LB
             IN [i \in 1..Len(a) |-> At(a, i - q) \div 2 ^ r + (At(a, i - q - 1) % 2 ^ r) * 2 ^ (LB - r)]
Bit(x, k)    == (x \div 2 ^ k) % 2
RECURSIVE BitsAnd(_, _, _)
BitsAnd(x, y, k) == IF k < 0 THEN 0 ELSE Bit(x, k) * Bit(y, k) * 2 ^ k + BitsAnd(x, y, k - 1)
And(a, b) == [i \in 1..Len(a) |-> BitsAnd(a[i], b[i], LB - 1)]
Or(a, b)  == [i \in 1..Len(a) |-> a[i] + b[i] - BitsAnd(a[i], b[i], LB - 1)]
\* position of the last set bit: the shortest mask which keeps the whole value
\* (a/w starts at a for every w past the first such w, so bisect: it fails at lo - 1 and holds at hi)
RECURSIVE SignifIn(_, _, _)
SignifIn(a, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF NetMin(a, m) = a THEN SignifIn(a, lo, m) ELSE SignifIn(a, m + 1, hi)
Signif(a) == SignifIn(a, 0, Width(a))
IsMask(a) == a = NetMin(Ones(Len(a)), Signif(a))

(* --- a range as a sequence of networks <<address, width>> --- *)
\* [lo, hi] is exactly the network lo/w
IsNet(lo, hi, w) == NetMin(lo, w) = lo /\ NetMax(lo, w) = hi
\* the widest network that starts at lo and stays in the range
Starts(lo, hi, w) == NetMin(lo, w) = lo /\ Leq(NetMax(lo, w), hi)
RECURSIVE WidestIn(_, _, _, _)
WidestIn(lo, hi, x, y) == IF x = y THEN x ELSE LET m == (x + y) \div 2 IN IF Starts(lo, hi, m) THEN WidestIn(lo, hi, x, m) ELSE WidestIn(lo, hi, m + 1, y)
Widest(lo, hi) == WidestIn(lo, hi, 0, Width(lo))
\* the width of the network which is exactly lo..hi, -1 if there is none
NetOf(lo, hi) == IF ~Leq(lo, hi) THEN -1 ELSE LET w == Widest(lo, hi) IN IF NetMax(lo, w) = hi THEN w ELSE -1
RECURSIVE Cover(_, _)
Cover(lo, hi) == IF ~Leq(lo, hi) THEN <<>>
                 ELSE LET w == Widest(lo, hi)
                          top == NetMax(lo, w)
                      IN <<<<lo, w>>>> \o (IF top = hi THEN <<>> ELSE Cover(Inc(top), hi))
=============================================================================
