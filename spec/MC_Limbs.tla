------------------------------ MODULE MC_Limbs ------------------------------
(* Exhaustive check of the number and network cover definitions against integer arithmetic, for a small width.  *)
EXTENDS Limbs, TLC, FiniteSets
CONSTANTS N
VARIABLES a, b
MCInit == a \in [1..N -> 0..(B-1)] /\ b \in [1..N -> 0..(B-1)]
Spec == MCInit /\ [][UNCHANGED <<a, b>>]_<<a, b>>
RECURSIVE ValFrom(_, _)
ValFrom(x, i) == IF i = 0 THEN 0 ELSE ValFrom(x, i - 1) * B + x[i]
Val(x) == ValFrom(x, N)
Top == B ^ N
Arith == /\ Cmp(a, b) = (IF Val(a) < Val(b) THEN -1 ELSE IF Val(a) > Val(b) THEN 1 ELSE 0)
         /\ Val(Inc(a)) = (Val(a) + 1) % Top /\ Val(Dec(a)) = (Val(a) + Top - 1) % Top
         /\ \A n \in 0..(LB * N) : Val(Shl(a, n)) = (Val(a) * 2 ^ n) % Top /\ Val(Shr(a, n)) = Val(a) \div 2 ^ n
         /\ \A w \in 0..(LB * N) : LET z == 2 ^ (LB * N - w) IN
              /\ Val(NetMin(a, w)) = Val(a) - (Val(a) % z) /\ Val(NetMax(a, w)) = Val(NetMin(a, w)) + z - 1
              /\ NetMin(Ones(N), w) = Shl(Ones(N), LB * N - w) /\ Signif(NetMin(Ones(N), w)) = w
         /\ \A k \in 0..(LB * N - 1) : Bit(Val(And(a, b)), k) = Bit(Val(a), k) * Bit(Val(b), k)
         /\ \A k \in 0..(LB * N - 1) : Bit(Val(Or(a, b)), k) = 1 - (1 - Bit(Val(a), k)) * (1 - Bit(Val(b), k))
\* Minimal number of networks which exactly partition lo..hi, by exhaustive search over the first network.
\* acc[i] is the least number of networks for (lo + i)..hi; networks which start at lo are tried exhaustively.
RECURSIVE LeastFrom(_, _, _)
LeastFrom(lo, hi, acc) ==
  IF Len(acc) = hi - lo + 1 THEN acc[1]
  ELSE LET x == hi - Len(acc)
           T == {1 + (IF k = Len(acc) + 1 THEN 0 ELSE acc[k]) : k \in {z \in {2 ^ q : q \in 0..(LB * N)} : z <= Len(acc) + 1 /\ x % z = 0}}
       IN LeastFrom(lo, hi, <<CHOOSE t \in T : \A u \in T : t <= u>> \o acc)
Least(lo, hi) == IF lo > hi THEN 0 ELSE LeastFrom(lo, hi, <<>>)
Covers == LET c == Cover(a, b) IN
  /\ Leq(a, b) => /\ c[1][1] = a /\ NetMax(c[Len(c)][1], c[Len(c)][2]) = b
                  /\ \A i \in 1..(Len(c) - 1) : Inc(NetMax(c[i][1], c[i][2])) = c[i + 1][1]
                  /\ \A i \in 1..Len(c) : NetMin(c[i][1], c[i][2]) = c[i][1]
                  /\ Len(c) = Least(Val(a), Val(b))
                  /\ ((Len(c) = 1) <=> \E w \in 0..(LB * N) : IsNet(a, b, w))
                  /\ NetOf(a, b) = (IF \E w \in 0..(LB * N) : IsNet(a, b, w) THEN CHOOSE w \in 0..(LB * N) : IsNet(a, b, w) ELSE -1)
  /\ ~Leq(a, b) => c = <<>>
=============================================================================
