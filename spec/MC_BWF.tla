------------------------------ MODULE MC_BWF ------------------------------
(* Every format text up to a size over the characters that matter, and the laws of the formatting language.  *)
EXTENDS BWF
CONSTANTS MaxLen, Alphabet, MaxNum
VARIABLES t, n
vars == <<t, n>>
Init == t = <<>> /\ n = 0
Next == \/ Len(t) < MaxLen /\ n = 0 /\ \E c \in Alphabet : t' = Append(t, c) /\ n' = n
        \/ t = <<>> /\ n < MaxNum /\ n' = n + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Args == <<[k |-> "int", neg |-> TRUE, x |-> <<0, 0, 0, 27>>], [k |-> "str", t |-> <<65, 98>>]>>
Names == <<[n |-> <<97>>, v |-> [k |-> "raw", t |-> <<88, 89>>]]>>
P(s) == Printed(s, Args, Names)
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {123, 125} THEN <<s[1], s[1]>> ELSE <<s[1]>>) \o Escape(Tail(s))
NoUnnamed(s) == \A i \in 1..Len(Parse(s)) : Parse(s)[i][1] = "spec" => Parse(s)[i][2].name # <<>>
\* escaped text prints itself
EscapeLaw == ~Malformed(Escape(t)) /\ P(Escape(t)) = t
\* formats are concatenative: where one ends the other starts, whatever is around it
ConcatLaw == \A k \in 0..Len(t) : LET a == SubSeq(t, 1, k)  b == SubSeq(t, k + 1, Len(t))
                                 IN ~Malformed(a) /\ ~Malformed(b) /\ (NoUnnamed(a) \/ NoUnnamed(b)) => ~Malformed(t) /\ (NoUnnamed(t) => P(t) = P(a) \o P(b))
\* every field is as wide as asked and no wider than allowed, and clipping is a prefix
FieldLaw == \A i \in 1..Len(Parse(t)) : Parse(t)[i][1] = "spec" =>
              LET q == Parse(t)[i][2]
              IN \A a \in 1..Len(Args) : LET f == Field(q, Render(q, Args[a]))
                                             g == Field([q EXCEPT !.max = -1], Render(q, Args[a]))
                                         IN /\ (q.max >= 0 => Len(f) <= q.max) /\ (q.max < 0 => Len(f) >= q.min)
                                            /\ (q.max >= q.min => Len(f) >= q.min) /\ f = SubSeq(g, 1, Len(f))
\* a text without braces is literal
LiteralLaw == (\A i \in 1..Len(t) : t[i] \notin {123, 125}) => P(t) = t /\ ~Malformed(t)
\* digits in each radix read back as the number; so does the decimal text
RECURSIVE Read(_, _, _, _)
Val(c) == IF c < 58 THEN c - 48 ELSE IF c < 91 THEN c - 55 ELSE c - 87
Read(d, b, i, acc) == IF i > Len(d) THEN acc ELSE Read(d, b, i + 1, acc * b + Val(d[i]))
Big(x) == <<x % 7, x * 31, x, 65535 - x>>          \* some 64 bit value
RadixLaw == /\ \A ty \in {98, 66, 111, 120, 88, 100} : LET b == CASE ty \in {98, 66} -> 2 [] ty = 111 -> 8 [] ty = 100 -> 10 [] OTHER -> 16
                                                            d == DigitsOf(Small(n), ty)
                                                        IN Read(d, b, 1, 0) = n /\ (n > 0 => d[1] # 48)
            /\ NDec([i \in 1..Len(DigitsOf(Big(n), 100)) |-> DigitsOf(Big(n), 100)[i] - 48]) = NLimbs(Big(n))
            /\ DecI(-n) = (IF n = 0 THEN <<48>> ELSE <<45>> \o Dec(NInt(n)))
\* rounding: the result is the nearest decimal, half up
RoundLaw == \A j \in 1..4, p \in 1..3 : LET out == Rounded(NInt(n), j, p)
                                            T == Read([i \in 1..Len(out) - 1 |-> IF i < Len(out) - p THEN out[i] ELSE out[i + 1]], 10, 1, 0)
                                        IN out[Len(out) - p] = 46 /\ 2 * n * 10 ^ p - 2 ^ j < 2 * T * 2 ^ j /\ 2 * T * 2 ^ j <= 2 * n * 10 ^ p + 2 ^ j
\* dates: one second after another, lexicographic in all but the month name
DateLaw == LET d == DateText(n * 86400 * 29)  IN Len(d) = 20
=============================================================================
