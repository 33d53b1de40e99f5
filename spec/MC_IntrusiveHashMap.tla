------------------------ MODULE MC_IntrusiveHashMap ------------------------
(* Design check: the table structure (one list of all elements, buckets that know their first element and the number of
   elements, and a list of active buckets whose order is the order of their segments in the element list) refines the
   multimap.  limit of a bucket = first element of the next active bucket.                                          *)
EXTENDS IntrusiveHashMap, TLC
CONSTANTS Pool, Keys, Sizes
VARIABLES K, ord, nb, first, cnt, act        \* K: keys of the elements, any
vars == <<K, ord, nb, first, cnt, act>>
Hs == K                                  \* identity hash: collisions come from the bucket count
Bkt(x, n) == Hs[x] % n
NextSize(n) == CHOOSE m \in Sizes : m > n /\ \A q \in Sizes : q > n => m <= q
Empty(n) == [b \in 0..(n - 1) |-> 0]
Init == K \in [Pool -> Keys] /\ ord = <<>> /\ nb \in Sizes /\ first = Empty(nb) /\ cnt = Empty(nb) /\ act = <<>>
LimitOf(b, f, a) == IF b \notin Elems(a) THEN 0 ELSE LET i == Pos(a, b) IN IF i < Len(a) THEN f[a[i + 1]] ELSE 0
\* segment of bucket b
Seg(s, b, f, a) == IF f[b] = 0 THEN <<>> ELSE
  LET i == Pos(s, f[b]) m == LimitOf(b, f, a) j == IF m = 0 THEN Len(s) + 1 ELSE Pos(s, m) IN SubSeq(s, i, j - 1)
InsBefore(s, t, v) == IF t = 0 THEN Append(s, v) ELSE LET i == Pos(s, t) IN SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
\* <<ord, first, cnt, act>> after inserting v
Ins(st, v, n) ==
  LET s == st[1] f == st[2] c == st[3] a == st[4] b == Bkt(v, n) IN
  IF f[b] = 0 THEN <<Append(s, v), [f EXCEPT ![b] = v], [c EXCEPT ![b] = 1], Append(a, b)>>
  ELSE LET g == Seg(s, b, f, a)
           eq == {i \in 1..Len(g) : K[g[i]] = K[v]}
           lim == LimitOf(b, f, a)
           lastEq == CHOOSE i \in eq : \A j \in eq : j <= i
           spot == IF eq = {} \/ lastEq = Len(g) THEN lim ELSE g[lastEq + 1]
       IN <<InsBefore(s, spot, v), f, [c EXCEPT ![b] = @ + 1], a>>
Insert(v) == /\ LET r == Ins(<<ord, first, cnt, act>>, v, nb) IN ord' = r[1] /\ first' = r[2] /\ cnt' = r[3] /\ act' = r[4]
             /\ nb' = nb
Erase(v) ==
  LET b == Bkt(v, nb) g == Seg(ord, b, first, act) IN
  /\ IF first[b] = v
     THEN IF Len(g) = 1 THEN first' = [first EXCEPT ![b] = 0] /\ cnt' = [cnt EXCEPT ![b] = 0] /\ act' = Without(act, b)
          ELSE first' = [first EXCEPT ![b] = g[2]] /\ cnt' = [cnt EXCEPT ![b] = @ - 1] /\ act' = act
     ELSE first' = first /\ cnt' = [cnt EXCEPT ![b] = @ - 1] /\ act' = act
  /\ ord' = Without(ord, v) /\ nb' = nb
RECURSIVE Reinsert(_, _, _)
Reinsert(st, s, n) == IF s = <<>> THEN st ELSE Reinsert(Ins(st, s[1], n), Tail(s), n)
Expand == /\ \E m \in Sizes : m > nb
          /\ LET n == NextSize(nb) r == Reinsert(<< <<>>, Empty(n), Empty(n), <<>> >>, ord, n) IN
             ord' = r[1] /\ first' = r[2] /\ cnt' = r[3] /\ act' = r[4] /\ nb' = n
Clear == ord' = <<>> /\ nb' = nb /\ first' = Empty(nb) /\ cnt' = Empty(nb) /\ act' = <<>>
Next == K' = K /\ ((\E v \in Pool \ Elems(ord) : Insert(v)) \/ (\E v \in Elems(ord) : Erase(v)) \/ Expand \/ Clear)
Spec == Init /\ [][Next]_vars
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
Inv == /\ Distinct(ord) /\ Grouped(ord, K) /\ Distinct(act)
       /\ Concat([i \in 1..Len(act) |-> Seg(ord, act[i], first, act)]) = ord    \* the active segments partition the list
       /\ \A b \in 0..(nb - 1) :
            /\ (first[b] # 0) = (b \in Elems(act)) /\ (first[b] # 0) = (\E x \in Elems(ord) : Bkt(x, nb) = b)
            /\ Elems(Seg(ord, b, first, act)) = {x \in Elems(ord) : Bkt(x, nb) = b}
            /\ cnt[b] = Len(Seg(ord, b, first, act))
       /\ \A k \in Keys : \* lookup in the bucket finds what a search of everything finds
            LET g == Seg(ord, k % nb, first, act) IN Find(g, K, k) = Find(ord, K, k)
Order == [][ /\ Stable(Minus(ord, Elems(ord) \ Elems(ord')), Minus(ord', Elems(ord') \ Elems(ord)), K)
             /\ nb' = nb => Minus(ord, Elems(ord) \ Elems(ord')) = Minus(ord', Elems(ord') \ Elems(ord)) ]_vars
=============================================================================
