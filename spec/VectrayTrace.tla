---------------------------- MODULE VectrayTrace ----------------------------
EXTENDS VTTrace, Vectray
VARIABLES box, kind                   \* containers (n = 0: none), and [own |-> objects count, d |-> default element]
vrVars == <<box, kind>>
None == Box(<<>>, 0, TRUE, Open)
\* An observed container o: elements seen through iteration; agree = every other access shows the same elements;
\* in = the elements are inside the object; al = the allocator of the storage (if not).
Is(o, c) == /\ o.v = c.v /\ o.agree /\ o.size = Len(c.v) /\ o.empty = (c.v = <<>>)
            /\ (o.in => Len(c.v) <= c.n) /\ (c.room => o.in)
            /\ ((~o.in /\ c.al # Open /\ c.v # <<>>) => o.al = c.al)
\* Elements of a container after they were moved from: valid and destroyed once, the values are open.
Seen(o, c) == [c EXCEPT !.v = o.v]
Live(b) == (kind.own => Ev.live = Total(b)) /\ Ev.odd = 0
\* A container after a failed assignment: usable, its elements and the kind of storage open.
Lost(o, c) == [c EXCEPT !.v = o.v, !.room = FALSE, !.al = Open]
\* The container after there was to be one more element: memory can be allocated if that does not fit.
Grown(c) == [c EXCEPT !.room = Fits(c, Len(c.v) + 1)]
Ok(b) == box' = b /\ Live(b) /\ UNCHANGED kind
C == box[Ev.i]
D == box[Ev.j]
\* i becomes c
Set(c) == Is(Ev.o, c) /\ Ok([box EXCEPT ![Ev.i] = c])
\* i becomes c, its elements are moved from j
Move(c) == /\ Is(Ev.o, c) /\ Is(Ev.o2, Seen(Ev.o2, D)) /\ (D.room => Len(Ev.o2.v) <= D.n)
           /\ Ok([[box EXCEPT ![Ev.i] = c] EXCEPT ![Ev.j] = Seen(Ev.o2, D)])
Step ==
  CASE Ev.op = "start" -> box' = [i \in 1..Ev.boxes |-> None] /\ kind' = [own |-> Ev.own, d |-> Ev.d]
    [] Ev.op = "new" -> C = None /\ Set(New(Ev.n, Ev.al))
    [] Ev.op = "newn" -> C = None /\ Set(NewOf(Ev.n, Ev.al, Ev.k, kind.d))
    [] Ev.op = "drop" -> Ok([box EXCEPT ![Ev.i] = None])
    [] Ev.op = "copy" -> C = None /\ Set(CopyOf(D))
    [] Ev.op = "move" -> C = None /\ Move(CopyOf(D))
    [] Ev.op = "moveto" -> C = None /\ Move(MoveTo(D, Ev.n))
    [] Ev.op = "movewith" -> C = None /\ Move(MoveWith(D, Ev.al))
    [] Ev.op = "assign" -> IF Ev.i = Ev.j THEN Set(C) ELSE Set(Assigned(C, D))
    [] Ev.op = "moveassign" -> Move(Assigned(C, D))
    [] Ev.op = "push" -> Set(Push(C, Ev.x)) /\ Ev.same
    [] Ev.op = "pushself" -> /\ Ev.same /\ Ev.k < Len(C.v)
                             /\ IF Ev.moved THEN LET z == Ev.o.v[Ev.k + 1] IN Set(Push(Put(C, Ev.k + 1, z), C.v[Ev.k + 1]))
                                ELSE Set(Push(C, C.v[Ev.k + 1]))
    [] Ev.op = "pop" -> Set(Pop(C)) /\ Ev.same
    [] Ev.op = "put" -> Set(Put(C, Ev.k + 1, Ev.x))
    [] Ev.op = "reserve" -> Set(Reserve(C, Ev.k))
    [] Ev.op = "ends" -> Ev.front = C.v[1] /\ Ev.back = C.v[Len(C.v)] /\ Set(C)
    [] Ev.op = "fail" ->     \* A construction or allocation threw.
         CASE Ev.what \in {"new", "copy"} -> C = None /\ ~Ev.has /\ Ok(box)
           [] Ev.what \in {"move", "moveto", "movewith"} ->
                 C = None /\ ~Ev.has /\ Is(Ev.o2, Lost(Ev.o2, D)) /\ Ok([box EXCEPT ![Ev.j] = Lost(Ev.o2, D)])
           [] Ev.what \in {"push", "pushself"} -> Set(Grown(C))     \* The elements are as if nothing was done.
           [] Ev.what = "reserve" -> Set([C EXCEPT !.room = FALSE])
           [] Ev.what = "pushmoved" -> LET z == Ev.o.v[Ev.k] IN Set(Put(Grown(C), Ev.k, z))
           [] Ev.what = "assign" -> /\ Ev.i # Ev.j
                                    /\ Is(Ev.o, Lost(Ev.o, C)) /\ Is(Ev.o2, D) /\ Ok([box EXCEPT ![Ev.i] = Lost(Ev.o, C)])
           [] Ev.what = "moveassign" -> /\ Is(Ev.o, Lost(Ev.o, C)) /\ Is(Ev.o2, Lost(Ev.o2, D))
                                        /\ Ok([[box EXCEPT ![Ev.i] = Lost(Ev.o, C)] EXCEPT ![Ev.j] = Lost(Ev.o2, D)])
           [] OTHER -> FALSE
    [] Ev.op = "end" -> Ev.left = 0 /\ Ev.mem = 0 /\ Ev.odd = 0 /\ UNCHANGED vrVars
    [] OTHER -> FALSE
Init == TInit /\ box = <<>> /\ kind = [own |-> FALSE, d |-> 0]
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED vrVars)
Spec == Init /\ [][Next]_<<tid, l, box, kind>>
=============================================================================
