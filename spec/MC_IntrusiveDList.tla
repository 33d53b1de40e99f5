------------------------- MODULE MC_IntrusiveDList -------------------------
(* Design check: the pointer level algorithms (links in the elements, head, tail and count in the list) refine the
   sequence operations.  Two lists over a pool of elements; after every operation walking the links forward from the
   head gives the abstract sequence, walking backward from the tail its reverse, and free elements have null links.   *)
EXTENDS IntrusiveDList, TLC
CONSTANTS Pool, MaxN
VARIABLES lst, nx, pv, hd, tl, cnt
vars == <<lst, nx, pv, hd, tl, cnt>>
L == 1..2
Free == Pool \ (Elems(lst[1]) \cup Elems(lst[2]))
Init == /\ lst = << <<>>, <<>> >> /\ nx = [x \in Pool |-> 0] /\ pv = [x \in Pool |-> 0]
        /\ hd = <<0, 0>> /\ tl = <<0, 0>> /\ cnt = <<0, 0>>
Set(f, ps) == [x \in DOMAIN f |-> IF \E p \in ps : p[1] = x THEN (CHOOSE p \in ps : p[1] = x)[2] ELSE f[x]]
Put(s, i, v) == [s EXCEPT ![i] = v]
\* ---- pointer level actions ---------------------------------------------------------------------------------------
Prepend(i, v) ==
  /\ lst' = Put(lst, i, <<v>> \o lst[i])
  /\ nx' = Set(nx, {<<v, hd[i]>>}) /\ pv' = Set(pv, {<<v, 0>>} \cup (IF hd[i] # 0 THEN {<<hd[i], v>>} ELSE {}))
  /\ tl' = IF hd[i] = 0 THEN Put(tl, i, v) ELSE tl
  /\ hd' = Put(hd, i, v) /\ cnt' = Put(cnt, i, cnt[i] + 1)
Append1(i, v) ==
  /\ lst' = Put(lst, i, lst[i] \o <<v>>)
  /\ pv' = Set(pv, {<<v, tl[i]>>}) /\ nx' = Set(nx, {<<v, 0>>} \cup (IF tl[i] # 0 THEN {<<tl[i], v>>} ELSE {}))
  /\ hd' = IF tl[i] = 0 THEN Put(hd, i, v) ELSE hd
  /\ tl' = Put(tl, i, v) /\ cnt' = Put(cnt, i, cnt[i] + 1)
InsertAfter(i, t, v) ==
  /\ lst' = Put(lst, i, After(lst[i], t, <<v>>))
  /\ nx' = Set(nx, {<<v, nx[t]>>, <<t, v>>})
  /\ pv' = Set(pv, {<<v, t>>} \cup (IF nx[t] # 0 THEN {<<nx[t], v>>} ELSE {}))
  /\ tl' = IF nx[t] = 0 /\ tl[i] = t THEN Put(tl, i, v) ELSE tl
  /\ hd' = hd /\ cnt' = Put(cnt, i, cnt[i] + 1)
InsertBefore(i, t, v) ==
  /\ lst' = Put(lst, i, Before(lst[i], t, <<v>>))
  /\ pv' = Set(pv, {<<v, pv[t]>>, <<t, v>>})
  /\ nx' = Set(nx, {<<v, t>>} \cup (IF pv[t] # 0 THEN {<<pv[t], v>>} ELSE {}))
  /\ hd' = IF pv[t] = 0 /\ hd[i] = t THEN Put(hd, i, v) ELSE hd
  /\ tl' = tl /\ cnt' = Put(cnt, i, cnt[i] + 1)
Erase(i, v) ==
  /\ lst' = Put(lst, i, Without(lst[i], v))
  /\ nx' = Set(nx, {<<v, 0>>} \cup (IF pv[v] # 0 THEN {<<pv[v], nx[v]>>} ELSE {}))
  /\ pv' = Set(pv, {<<v, 0>>} \cup (IF nx[v] # 0 THEN {<<nx[v], pv[v]>>} ELSE {}))
  /\ hd' = IF hd[i] = v THEN Put(hd, i, nx[v]) ELSE hd
  /\ tl' = IF tl[i] = v THEN Put(tl, i, pv[v]) ELSE tl
  /\ cnt' = Put(cnt, i, cnt[i] - 1)
EraseRange(i, a, b) == \* a # b, b = 0 : end
  LET out == Elems(CutOut(lst[i], a, b)) p == pv[a] IN
  /\ lst' = Put(lst, i, Cut(lst[i], a, b))
  /\ nx' = Set(nx, {<<x, 0>> : x \in out} \cup (IF p # 0 THEN {<<p, b>>} ELSE {}))
  /\ pv' = Set(pv, {<<x, 0>> : x \in out} \cup (IF b # 0 THEN {<<b, p>>} ELSE {}))
  /\ hd' = IF hd[i] = a THEN Put(hd, i, b) ELSE hd
  /\ tl' = IF b = 0 THEN Put(tl, i, p) ELSE tl
  /\ cnt' = Put(cnt, i, cnt[i] - Cardinality(out))
Swap(h, i, a, b) == [h EXCEPT ![i] = a, ![3 - i] = b]
\* Splice list 3-i into i after t.
Splice(i, t) ==
  LET j == 3 - i IN
  /\ cnt[j] > 0
  /\ lst' = Swap(lst, i, After(lst[i], t, lst[j]), <<>>)
  /\ IF tl[i] = t
     THEN /\ nx' = Set(nx, {<<tl[i], hd[j]>>}) /\ pv' = Set(pv, {<<hd[j], tl[i]>>}) /\ tl' = Swap(tl, i, tl[j], 0) /\ hd' = Put(hd, j, 0)
     ELSE /\ nx' = Set(nx, {<<tl[j], nx[t]>>, <<t, hd[j]>>}) /\ pv' = Set(pv, {<<nx[t], tl[j]>>, <<hd[j], t>>})
          /\ hd' = Put(hd, j, 0) /\ tl' = Put(tl, j, 0)
  /\ cnt' = Swap(cnt, i, cnt[i] + cnt[j], 0)
\* take_prefix(n) / take_suffix(n) of list i into the empty list 3-i.
TakeP(i, n) ==
  LET j == 3 - i s == lst[i] k == Min(n, Len(s)) IN
  /\ cnt[j] = 0
  /\ lst' = Swap(lst, i, TakePrefix(s, n)[2], TakePrefix(s, n)[1])
  /\ IF n = 0 THEN UNCHANGED <<nx, pv, hd, tl, cnt>>
     ELSE IF cnt[i] <= n THEN hd' = Swap(hd, i, 0, hd[i]) /\ tl' = Swap(tl, i, 0, tl[i]) /\ cnt' = Swap(cnt, i, 0, cnt[i]) /\ UNCHANGED <<nx, pv>>
     ELSE LET spot == Nth(s, n) IN
          /\ hd' = Swap(hd, i, spot, hd[i]) /\ tl' = Put(tl, j, pv[spot]) /\ cnt' = Swap(cnt, i, cnt[i] - n, n)
          /\ nx' = Set(nx, {<<pv[spot], 0>>}) /\ pv' = Set(pv, {<<spot, 0>>})
TakeS(i, n) ==
  LET j == 3 - i s == lst[i] IN
  /\ cnt[j] = 0
  /\ lst' = Swap(lst, i, TakeSuffix(s, n)[2], TakeSuffix(s, n)[1])
  /\ IF n = 0 THEN UNCHANGED <<nx, pv, hd, tl, cnt>>
     ELSE IF cnt[i] <= n THEN hd' = Swap(hd, i, 0, hd[i]) /\ tl' = Swap(tl, i, 0, tl[i]) /\ cnt' = Swap(cnt, i, 0, cnt[i]) /\ UNCHANGED <<nx, pv>>
     ELSE LET spot == Nth(s, cnt[i] - n - 1) IN
          /\ hd' = Put(hd, j, nx[spot]) /\ tl' = Swap(tl, i, spot, tl[i]) /\ cnt' = Swap(cnt, i, cnt[i] - n, n)
          /\ nx' = Set(nx, {<<spot, 0>>}) /\ pv' = Set(pv, {<<nx[spot], 0>>})
Next == \E i \in L :
  \/ \E v \in Free : Prepend(i, v) \/ Append1(i, v) \/ (\E t \in Elems(lst[i]) : InsertAfter(i, t, v) \/ InsertBefore(i, t, v))
  \/ \E v \in Elems(lst[i]) : Erase(i, v) \/ Splice(i, v)
  \/ \E a \in Elems(lst[i]), b \in Elems(lst[i]) \cup {0} : a # b /\ Pos(lst[i], a) < EndPos(lst[i], b) /\ EraseRange(i, a, b)
  \/ \E n \in 0..MaxN : TakeP(i, n) \/ TakeS(i, n)
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _, _)
Walk(f, x, k) == IF x = 0 \/ k = 0 THEN <<>> ELSE <<x>> \o Walk(f, f[x], k - 1)
N == Cardinality(Pool) + 1
Inv == /\ \A i \in L : /\ Walk(nx, hd[i], N) = lst[i] /\ Walk(pv, tl[i], N) = Rev(lst[i]) /\ cnt[i] = Len(lst[i]) /\ Distinct(lst[i])
       /\ Elems(lst[1]) \cap Elems(lst[2]) = {}
       /\ \A x \in Pool : nx[x] = NextOf(lst, x) /\ pv[x] = PrevOf(lst, x)
=============================================================================
