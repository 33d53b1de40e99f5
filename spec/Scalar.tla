------------------------------- MODULE Scalar -------------------------------
(* swoc::Scalar.  A scalar is a count of a fixed scale, its value is count * scale.  Values are exact integers here. *)
EXTENDS Integers, Sequences
Floor(v, n) == v \div n                                 \* n > 0
Ceil(v, n) == -((-v) \div n)
Up(v, n) == n * Ceil(v, n)                              \* the smallest multiple of n that is not less than v
Down(v, n) == n * Floor(v, n)
Round(dir, v, n) == IF dir = "up" THEN Ceil(v, n) ELSE Floor(v, n)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Common(n, s) == Gcd(n, s)                               \* scale of the common type
Divides(n, s) == s % n = 0                              \* a scalar of scale s converts to scale n without rounding
\* Quotients of the same sign are exact; the rounding of others is not specified.
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Abs(a) == IF a < 0 THEN -a ELSE a
IsQuot(q, a, b) == LET f == Abs(a) \div Abs(b)  exact == Abs(a) % Abs(b) = 0
                   IN IF Sign(a) * Sign(b) >= 0 THEN q = f ELSE q = -f \/ (~exact /\ q = -f - 1)
=============================================================================
