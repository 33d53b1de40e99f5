------------------------------ MODULE MC_Digits ------------------------------
(* The numbers used as the oracle agree with the integers; reading back what is printed in any base gives the number;
   every text over Alphabet has one reading, which stays inside the text.                                          *)
EXTENDS TextNumber, TLC
CONSTANTS Big, Alphabet, MaxLen
VARIABLES x, y, s
vars == <<x, y, s>>
Init == x = 0 /\ y = 0 /\ s = <<>>
Edges == {9, 10, 99, 9999, 10000, 10001, 65535, 65536, 65537, 99999999, 100000000, 100000001, 123456789}
Next == \/ s = <<>> /\ y = 0 /\ x = 0 /\ x' \in (1..Big) \cup Edges /\ UNCHANGED <<y, s>>
        \/ s = <<>> /\ y = 0 /\ y' \in (1..(Big \div 10)) \cup Edges /\ UNCHANGED <<x, s>>
        \/ x = 0 /\ y = 0 /\ Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
RECURSIVE Shown(_, _)
Shown(n, b) == (IF n < b THEN <<>> ELSE Shown(n \div b, b)) \o <<IF n % b < 10 THEN 48 + (n % b) ELSE 87 + (n % b)>>
L64(n) == <<0, 0, n \div 65536, n % 65536>>
Arith == /\ NCmp(NInt(x), NInt(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
         /\ NAdd(NInt(x), NInt(y)) = NInt(x + y)
         /\ NDiff(NInt(x), NInt(y)) = NInt(IF x > y THEN x - y ELSE y - x)
         /\ (x < 1000000 => NMulAdd(NInt(x), 7, 3) = NInt(x * 7 + 3) /\ NMul2(NInt(x), 3) = NInt(x * 8) /\ NMul10(NInt(x), 2) = NInt(x * 100))
         /\ NLimbs(<<x \div 65536, x % 65536>>) = NInt(x)
         /\ NMul10(NInt(x), 7) = NMulAdd(NMulAdd(NInt(x), 10000, 0), 1000, 0) /\ NMul2(NInt(x), 27) = NMulAdd(NMulAdd(NMulAdd(NInt(x), 8192, 0), 8192, 0), 2, 0)
ReadBack == \A b \in {2, 3, 8, 10, 16, 36} : LET t == Shown(x, b) u == Unsigned(t \o <<32>>, 1, b) IN u.v = L64(x) /\ u.lo = 1 /\ u.hi = Len(t) + 1
Prefixes == /\ Unsigned(<<48, 120>> \o Shown(x, 16), 1, 0).v = L64(x) /\ Unsigned(<<48, 98>> \o Shown(x, 2), 1, 0).v = L64(x)
            /\ Unsigned(<<48>> \o Shown(x, 8), 1, 0).v = L64(x)
Clamps == /\ Unsigned([i \in 1..30 |-> 57], 1, 10).v = Max64
          /\ Unsigned(<<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>, 1, 10).v = Max64
          /\ Unsigned(<<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 52>>, 1, 10).v = <<65535, 65535, 65535, 65534>>
Inside == /\ \A b \in {0, 2, 10, 16} : LET u == Unsigned(s, SkipWhite(s, 1), b) IN u.lo <= u.hi /\ u.hi <= Len(s) + 2
          /\ LET f == FScan(s) IN f.ok => f.hi <= Len(s) + 1 /\ f.hi > 1
\* a decimal number scanned with an exponent is the number times the power of ten
Floats == LET f == FScan(Shown(x, 10) \o <<101, 45, 50>>) IN f.ok /\ f.d = NInt(x) /\ f.x = -2
Exact == x > 0 => Near(NInt(x), 0, NInt(x), 0) /\ Near(NMul2(NInt(x), 3), -3, NInt(x), 0) /\ ~Near(NInt(x), 0, NMulAdd(NInt(x), 10, 1), -1)
==============================================================================
