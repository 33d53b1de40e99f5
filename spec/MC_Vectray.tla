----------------------------- MODULE MC_Vectray -----------------------------
(* The storage behind a Vectray: N cells inside the object and a count, or a vector.  Every sequence of operations on two of
   them, against the specified sequences.  A cell is the value of a live object or Dead.                              *)
EXTENDS Vectray, TLC, FiniteSets
CONSTANTS N1, N2, Vals, MaxLen
VARIABLES st, sp                       \* storage and specification of each container
vars == <<st, sp>>
Dead == -9
Moved == -8
Cap(i) == IF i = 1 THEN N1 ELSE N2
Empty(i) == [dyn |-> FALSE, cell |-> [k \in 1..Cap(i) |-> Dead], cnt |-> 0, vec |-> <<>>]
Abs(s) == IF s.dyn THEN s.vec ELSE [k \in 1..s.cnt |-> s.cell[k]]
Live(s) == IF s.dyn THEN Len(s.vec) ELSE Cardinality({k \in DOMAIN s.cell : s.cell[k] # Dead})
Init == st = [i \in 1..2 |-> Empty(i)] /\ sp = [i \in 1..2 |-> New(Cap(i), 0)]
Dyn(i, v) == [Empty(i) EXCEPT !.dyn = TRUE, !.vec = v]
\* add x: in the next cell, or to the vector, after the elements were moved there
Add(i, s, x) == IF s.dyn THEN Dyn(i, Append(s.vec, x))
                ELSE IF s.cnt < Cap(i) THEN [s EXCEPT !.cell[s.cnt + 1] = x, !.cnt = s.cnt + 1]
                ELSE Dyn(i, Append(Abs(s), x))
RemoveLast(i, s) == IF s.dyn THEN Dyn(i, Front(s.vec)) ELSE [s EXCEPT !.cell[s.cnt] = Dead, !.cnt = s.cnt - 1]
Hold(i, s, k) == IF s.dyn \/ k <= Cap(i) THEN s ELSE Dyn(i, Abs(s))
RECURSIVE AddAll(_, _, _)
AddAll(i, s, v) == IF v = <<>> THEN s ELSE AddAll(i, Add(i, s, Head(v)), Tail(v))
Gone(i, s) == IF s.dyn THEN Dyn(i, <<>>) ELSE [s EXCEPT !.cell = [k \in DOMAIN s.cell |-> IF k <= s.cnt THEN Moved ELSE Dead]]
Set(i, s, c) == st' = [st EXCEPT ![i] = s] /\ sp' = [sp EXCEPT ![i] = c]
\* construct or assign i from the elements of the storage t of j
From(i, t) == IF t.dyn THEN Dyn(i, t.vec) ELSE AddAll(i, Hold(i, Empty(i), t.cnt), Abs(t))
Next == \E i \in 1..2 : LET j == 3 - i s == st[i] c == sp[i] IN
  \/ Len(c.v) < MaxLen /\ \E x \in Vals : Set(i, Add(i, s, x), Push(c, x))
  \/ Len(c.v) \in 1..(MaxLen - 1) /\ \E k \in 1..Len(c.v) : Set(i, Add(i, s, Abs(s)[k]), Push(c, c.v[k]))
  \/ Len(c.v) > 0 /\ Set(i, RemoveLast(i, s), Pop(c))
  \/ Len(c.v) > 0 /\ \E k \in 1..Len(c.v), x \in Vals : Set(i, IF s.dyn THEN [s EXCEPT !.vec[k] = x] ELSE [s EXCEPT !.cell[k] = x], Put(c, k, x))
  \/ \E k \in 0..MaxLen : Set(i, Hold(i, s, k), Reserve(c, k))
  \/ \E k \in 0..MaxLen : Set(i, AddAll(i, Hold(i, Empty(i), k), [x \in 1..k |-> 0]), NewOf(Cap(i), 0, k, 0))
  \/ /\ st' = [[st EXCEPT ![i] = From(i, st[j])] EXCEPT ![j] = Gone(j, st[j])]                 \* move construction, other N
     /\ sp' = [[sp EXCEPT ![i] = MoveTo(sp[j], Cap(i))] EXCEPT ![j] = [sp[j] EXCEPT !.v = Abs(Gone(j, st[j]))]]
  \/ Cap(i) = Cap(j) /\ Set(i, From(i, st[j]), Assigned(c, sp[j]))                             \* copy assignment
  \/ Cap(i) = Cap(j) /\ Set(i, From(i, st[j]), CopyOf(sp[j]))
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..2 : /\ Abs(st[i]) = sp[i].v
                       /\ Live(st[i]) = Len(sp[i].v)
                       /\ (sp[i].room => ~st[i].dyn)                    \* no allocation for what fits
                       /\ (~st[i].dyn => st[i].cnt <= Cap(i))
                       /\ (sp[i].room => Len(sp[i].v) <= Cap(i))
=============================================================================
