------------------------------ MODULE Vectray ------------------------------
(* swoc::Vectray<T, N>: a sequence of elements.  A container is [v |-> elements, n |-> N, room |-> BOOLEAN, al |-> allocator]:
   room = it has to hold its elements inside the object (it never had more than N, nor was more asked for); al = the allocator
   of its dynamic storage, Open if not determined.  Live objects are exactly the elements of the containers.            *)
EXTENDS Integers, Sequences
Open == -1
Box(v, n, room, al) == [v |-> v, n |-> n, room |-> room, al |-> al]
Fits(c, k) == c.room /\ k <= c.n
\* the container with the elements v, after growth by adding
With(c, v) == [c EXCEPT !.v = v, !.room = Fits(c, Len(v))]
Front(s) == SubSeq(s, 1, Len(s) - 1)
New(n, al) == Box(<<>>, n, TRUE, al)
NewOf(n, al, k, d) == Box([i \in 1..k |-> d], n, k <= n, al)
Push(c, x) == With(c, Append(c.v, x))
Pop(c) == With(c, Front(c.v))
Put(c, i, x) == [c EXCEPT !.v = [c.v EXCEPT ![i] = x]]
Reserve(c, k) == [c EXCEPT !.room = Fits(c, k)]
\* Construction from d: the same elements, the same kind of storage.
CopyOf(d) == d
\* A move to a container of another N (not determined: the allocator, and where elements of a dynamic container that would fit are).
MoveTo(d, n) == Box(d.v, n, d.room /\ Len(d.v) <= n, Open)
\* Assignment: the kind of storage follows the elements.
Assigned(c, d) == Box(d.v, c.n, c.room /\ d.room, IF c.al = d.al THEN c.al ELSE Open)
MoveWith(d, al) == Box(d.v, d.n, d.room, al)
RECURSIVE Total(_)
Total(cs) == IF cs = <<>> THEN 0 ELSE Len(Head(cs).v) + Total(Tail(cs))
=============================================================================
