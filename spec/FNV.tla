--------------------------------- MODULE FNV ---------------------------------
(* FNV-1a, on numbers of W octets, least significant first: for each octet, exclusive or and multiply by the prime
   (2^24 + 403 for 32 bits, 2^40 + 435 for 64 bits), modulo 256^W.                                               *)
EXTENDS Integers, Sequences
RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE ((a + b) % 2) + 2 * Xor(a \div 2, b \div 2)
\* carry normalisation of octet "digits" of any size
RECURSIVE Norm(_, _, _)
Norm(d, i, c) == IF i > Len(d) THEN <<>> ELSE LET x == d[i] + c IN <<x % 256>> \o Norm(d, i + 1, x \div 256)
Small(w) == IF w = 4 THEN 403 ELSE 435
Up(w)    == IF w = 4 THEN 3 ELSE 5      \* octets the big term is shifted by
Mul(h)   == Norm([i \in 1..Len(h) |-> h[i] * Small(Len(h)) + (IF i > Up(Len(h)) THEN h[i - Up(Len(h))] ELSE 0)], 1, 0)
Octet(h, b) == Mul([h EXCEPT ![1] = Xor(@, b)])
RECURSIVE Hash(_, _)
Hash(h, t) == IF t = <<>> THEN h ELSE Hash(Octet(h, t[1]), Tail(t))
Start(w) == IF w = 4 THEN <<197, 157, 28, 129>>                         \* 0x811c9dc5
            ELSE <<37, 35, 34, 132, 228, 156, 242, 203>>                \* 0xcbf29ce484222325
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
LowerT(t) == [i \in 1..Len(t) |-> Lower(t[i])]
=============================================================================
