-------------------------- MODULE IntrusiveHashMap --------------------------
(* swoc::IntrusiveHashMap.  A multimap of elements which carry their key and links.
   ord : the elements in iteration order    nb : number of buckets    pol, lim : expansion policy and limit
   K[x], H[x] : key and hash of the key of element x.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
Elems(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Distinct(s) == Cardinality(Elems(s)) = Len(s)
Without(s, x) == LET keep(y) == y # x IN SelectSeq(s, keep)
Minus(s, X) == LET keep(y) == y \notin X IN SelectSeq(s, keep)
Only(s, X) == LET keep(y) == y \in X IN SelectSeq(s, keep)
WithKey(s, K, k) == LET keep(y) == K[y] = k IN SelectSeq(s, keep)
\* Equal keys are adjacent.
Grouped(s, K) == \A i, j \in 1..Len(s) : i < j /\ K[s[i]] = K[s[j]] => K[s[i + 1]] = K[s[i]]
\* The relative order of elements with equal keys is the same in both.
Stable(s, t, K) == \A x \in Elems(s) : WithKey(s, K, K[x]) = WithKey(t, K, K[x])
Find(s, K, k) == LET w == WithKey(s, K, k) IN IF w = <<>> THEN 0 ELSE w[1]
Succ(s, x) == LET i == Pos(s, x) IN IF i < Len(s) THEN s[i + 1] ELSE 0
Chain(s, H, n, x) == {y \in Elems(s) : H[y] % n = H[x] % n}
\* Does inserting x (already in s) expand the table: "must", "may" or "no"
MANUAL == 0  AVERAGE == 1  MAXIMUM == 2
Expansion(s, K, H, n, pol, lim, x) ==
  IF pol = AVERAGE THEN IF Len(s) \div n > lim THEN "must" ELSE IF Len(s) > lim * n THEN "may" ELSE "no"
  ELSE IF pol = MAXIMUM
       THEN LET c == Chain(s, H, n, x) IN IF Cardinality(c) > lim /\ (\E y \in c : K[y] # K[x]) THEN "must" ELSE "no"
       ELSE "no"
=============================================================================
