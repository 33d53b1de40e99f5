------------------------------ MODULE PathTrace ------------------------------
EXTENDS VTTrace, Path
VARIABLES reg        \* texts of the paths
Is(o, p) == /\ o.t = p /\ o.n = Len(p) /\ o.agree
            /\ o.empty = (p = <<>>) /\ o.abs = IsAbs(p) /\ o.rel = ~IsAbs(p)
R(i) == reg[i]
Set(p) == Is(Ev.o, p) /\ reg' = [reg EXCEPT ![Ev.i] = p]
Same == UNCHANGED reg
Step ==
  CASE Ev.op = "start" -> reg' = [i \in 1..Ev.n |-> <<>>]
    [] Ev.op = "make" -> Set(Ev.t)                             \* construct / assign from text
    [] Ev.op = "copy" -> Set(R(Ev.j)) /\ Ev.src = R(Ev.j)
    [] Ev.op = "move" -> /\ Is(Ev.o, R(Ev.j)) /\ Ev.i # Ev.j     \* the moved from path is then assigned
                         /\ reg' = [[reg EXCEPT ![Ev.i] = R(Ev.j)] EXCEPT ![Ev.j] = Ev.src]
    [] Ev.op = "append" -> Set(Join(R(Ev.i), Ev.t)) /\ Ev.self   \* /= text
    [] Ev.op = "appendp" -> Set(Join(R(Ev.i), R(Ev.j))) /\ Ev.self /\ (Ev.i # Ev.j => Ev.src = R(Ev.j))
    [] Ev.op = "join" -> /\ Set(Join(R(Ev.j), Ev.t)) /\ (Ev.i # Ev.j => Ev.src = R(Ev.j))
    [] Ev.op = "joinp" -> /\ Set(Join(R(Ev.j), R(Ev.k))) /\ (Ev.i # Ev.j => Ev.src = R(Ev.j)) /\ (Ev.i # Ev.k => Ev.src2 = R(Ev.k))
    [] Ev.op = "parent" -> IF LastSep(R(Ev.j)) = 0 THEN Is(Ev.o, Ev.o.t) /\ reg' = [reg EXCEPT ![Ev.i] = Ev.o.t] ELSE Set(Parent(R(Ev.j)))
    [] Ev.op = "filename" -> Set(FileName(R(Ev.j)))
    [] Ev.op = "relative" -> IsRelativePart(Ev.o.t, R(Ev.j)) /\ Set(Ev.o.t)
    [] Ev.op = "reserve" -> Set(R(Ev.i)) /\ Ev.self
    [] Ev.op = "compare" -> /\ Ev.eq = (R(Ev.i) = R(Ev.j)) /\ Ev.ne = (R(Ev.i) # R(Ev.j)) /\ (R(Ev.i) = R(Ev.j) => Ev.hash) /\ Same
    [] Ev.op = "keys" -> \* set of the paths in an unordered container
         /\ Same /\ Ev.n = Len(Ev.found) /\ {R(i) : i \in 1..Len(reg)} = {Ev.found[i] : i \in 1..Len(Ev.found)}
         /\ \A i, j \in 1..Len(Ev.found) : Ev.found[i] = Ev.found[j] => i = j
    [] Ev.op = "temp" -> Set(TempDir(Ev.env))
    [] Ev.op = "print" -> /\ Same
         /\ LET p == IF Ev.x >= 0 /\ Ev.x < Len(R(Ev.i)) THEN SubSeq(R(Ev.i), 1, Ev.x) ELSE R(Ev.i)
                fill == [k \in 1..(IF Ev.w > Len(p) THEN Ev.w - Len(p) ELSE 0) |-> 42]
            IN Ev.t = IF Ev.right THEN fill \o p ELSE p \o fill
    [] OTHER -> FALSE /\ Same
Init == TInit /\ reg = <<>>
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED reg)
Spec == Init /\ [][Next]_<<tid, l, reg>>
=============================================================================
