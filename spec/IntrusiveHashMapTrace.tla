---------------------- MODULE IntrusiveHashMapTrace ----------------------
(* Conformance of swoc::IntrusiveHashMap: maps 1..2 over a pool of elements.  Every event carries forward and backward
   traversals, count, bucket count and policy of both maps.                                                        *)
EXTENDS VTTrace, IntrusiveHashMap
VARIABLES m
NM == 2
K == Traces[tid].e[1].keys
H == Traces[tid].e[1].hash
Blank == [ord |-> <<>>, nb |-> 0, pol |-> AVERAGE, lim |-> 4]
All == Elems(m[1].ord) \cup Elems(m[2].ord)
Free(x) == x \notin All
\* observation o of map i agrees with the state; ord and nb are taken from it by the actions
Agrees(i) == LET o == Ev.o[i] s == m'[i] IN
  /\ o.f = s.ord /\ o.b = Rev(s.ord) /\ o.n = Len(s.ord) /\ o.nb = s.nb /\ o.pol = s.pol /\ o.lim = s.lim
Obs == Agrees(1) /\ Agrees(2)
Put(i, r) == m' = [m EXCEPT ![i] = r]
Same == m' = m
Nb1(n) == IF n = 0 THEN 1 ELSE n
\* a lookup may give buckets to a table without
Touch(i) == Put(i, IF m[i].nb = 0 /\ Ev.o[i].nb > 0 THEN [m[i] EXCEPT !.nb = Ev.o[i].nb] ELSE m[i])
Valid(s) == Distinct(s) /\ Grouped(s, K)
Insert(i, x) ==
  LET s == m[i] t == Ev.o[i].f n == IF s.nb = 0 /\ Ev.o[i].nb > 0 THEN 1 ELSE s.nb
      e == Expansion(Append(s.ord, x), K, H, n, s.pol, s.lim, x)
      grew == Ev.o[i].nb > n
  IN /\ Elems(t) = Elems(s.ord) \cup {x} /\ Len(t) = Len(s.ord) + 1 /\ Grouped(t, K)
     /\ (e = "must" => grew) /\ (e = "no" => Ev.o[i].nb = n) /\ (e = "may" => Ev.o[i].nb >= n)
     /\ IF grew THEN Stable(s.ord, Without(t, x), K) ELSE Without(t, x) = s.ord
     /\ LET w == WithKey(t, K, K[x]) IN w[Len(w)] = x           \* the last of its equals
     /\ Put(i, [s EXCEPT !.ord = t, !.nb = Ev.o[i].nb])
Step ==
  LET i == Ev.i s == m[i] IN
  CASE Ev.op = "start"  -> \* construction with n buckets
         /\ Ev.o[1].nb >= Ev.n[1] /\ Ev.o[2].nb >= Ev.n[2]
         /\ m' = [k \in 1..NM |-> [Blank EXCEPT !.nb = Ev.o[k].nb]] /\ Obs
    [] Ev.op = "insert" -> Free(Ev.x) /\ Insert(i, Ev.x) /\ Obs
    [] Ev.op = "find"   -> Ev.r = Find(s.ord, K, Ev.k) /\ Ev.end = (Ev.r = 0) /\ Touch(i) /\ Obs
    [] Ev.op = "findv"  -> Ev.r = (IF Ev.x \in Elems(s.ord) THEN Ev.x ELSE 0) /\ Ev.end = (Ev.r = 0) /\ Touch(i) /\ Obs
    [] Ev.op = "range"  -> Ev.r = WithKey(s.ord, K, Ev.k) /\ Touch(i) /\ Obs
    [] Ev.op = "iterfor" -> Ev.r = Ev.x /\ Ev.nx = Succ(s.ord, Ev.x) /\ Same /\ Obs
    [] Ev.op = "erase"  -> \* by iterator: gives the next element
         Ev.x \in Elems(s.ord) /\ Ev.r = Succ(s.ord, Ev.x) /\ Put(i, [s EXCEPT !.ord = Without(@, Ev.x)]) /\ Obs
    [] Ev.op = "erasev" -> \* by value: only if it is in this map
         /\ Ev.r = (Ev.x \in Elems(s.ord))
         /\ Put(i, [s EXCEPT !.ord = Without(@, Ev.x), !.nb = IF @ = 0 THEN Ev.o[i].nb ELSE @]) /\ Obs
    [] Ev.op = "cut"    -> \* elements [a, b) of the iteration, b = 0: to the end
         LET p == IF Ev.a = 0 THEN Len(s.ord) + 1 ELSE Pos(s.ord, Ev.a)
             q == IF Ev.b = 0 THEN Len(s.ord) + 1 ELSE Pos(s.ord, Ev.b)
         IN Ev.r = Ev.b /\ Put(i, [s EXCEPT !.ord = SubSeq(@, 1, p - 1) \o SubSeq(@, q, Len(@))]) /\ Obs
    [] Ev.op = "cutkey" -> \* the range of a key
         /\ Put(i, [s EXCEPT !.ord = Minus(@, Elems(WithKey(@, K, Ev.k))), !.nb = IF @ = 0 THEN Ev.o[i].nb ELSE @]) /\ Obs
    [] Ev.op = "apply"  -> Ev.seen = s.ord /\ Ev.self /\ Put(i, [s EXCEPT !.ord = Minus(@, Elems(Ev.rm))]) /\ Obs
    [] Ev.op = "clear"  -> Ev.self /\ Put(i, [s EXCEPT !.ord = <<>>]) /\ Obs
    [] Ev.op = "expand" -> \* more buckets, the same elements
         LET t == Ev.o[i].f IN
         /\ Ev.o[i].nb > s.nb /\ Elems(t) = Elems(s.ord) /\ Len(t) = Len(s.ord) /\ Grouped(t, K) /\ Stable(s.ord, t, K)
         /\ Put(i, [s EXCEPT !.ord = t, !.nb = Ev.o[i].nb]) /\ Obs
    [] Ev.op = "policy" -> Ev.self /\ Put(i, [s EXCEPT !.pol = Ev.pol, !.lim = Ev.lim]) /\ Obs
    [] Ev.op = "move"   -> \* replace map i by one moved from it; the old one (empty) is used as the new map 2
         /\ i = 1 /\ s.ord # <<>>
         /\ m' = << s, [m[1] EXCEPT !.ord = <<>>, !.nb = Ev.o[2].nb] >> /\ Obs
    [] OTHER -> FALSE /\ UNCHANGED m
Init == TInit /\ m = [k \in 1..NM |-> Blank]
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED m)
Spec == Init /\ [][Next]_<<tid, l, m>>
Inv == /\ \A i \in 1..NM : Valid(m[i].ord)
       /\ Elems(m[1].ord) \cap Elems(m[2].ord) = {}
=============================================================================
