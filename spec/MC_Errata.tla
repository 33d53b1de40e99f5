----------------------------- MODULE MC_Errata -----------------------------
(* All histories of two errata, with changes of the filter.  ghost: what was ever noted, with the number of copies. *)
EXTENDS Errata, TLC
CONSTANTS MaxNotes, Sevs
VARIABLES er, g, low, sunk
vars == <<er, g, low, sunk>>
G0 == [def |-> 2, fail |-> 2, filter |-> 0, names |-> <<<<65>>, <<66>>>>, glue |-> <<10>>, sglue |-> <<58>>, indent |-> <<32>>, asev |-> <<>>, acode |-> <<>>, aboth |-> <<>>]
Codes == <<<<67>>>>
Init == er = [i \in 1..2 |-> Fresh(G0)] /\ g = G0 /\ low = [i \in 1..2 |-> FALSE] /\ sunk = 0
Set(i, e, w) == er' = [er EXCEPT ![i] = e] /\ low' = [low EXCEPT ![i] = w] /\ UNCHANGED <<g, sunk>>
Room(k) == Len(er[1].notes) + Len(er[2].notes) + k <= MaxNotes
Next == \/ \E f \in Sevs : f # g.filter /\ g' = [g EXCEPT !.filter = f] /\ UNCHANGED <<er, low, sunk>>
        \/ \E i \in 1..2 : LET e == er[i] j == 3 - i IN
           \/ \E s \in Sevs \cup {None}, t \in {<<>>, <<97>>} : Room(1) /\ Set(i, Note(e, g, s, t), low[i])
           \/ \E s \in Sevs : Set(i, AssignSev(e, g, s), TRUE) \/ Set(i, Update(e, g, s), low[i])
           \/ Set(i, AssignCode(e, g, 1), low[i])
           \/ Room(Len(er[j].notes)) /\ Set(i, NoteAll(e, g, er[j]), low[i] \/ low[j])                        \* copy
           \/ /\ er' = [[er EXCEPT ![i] = NoteAll(e, g, er[j])] EXCEPT ![j] = Fresh(g)]                       \* move
              /\ low' = [[low EXCEPT ![i] = low[i] \/ low[j]] EXCEPT ![j] = FALSE] /\ UNCHANGED <<g, sunk>>
           \/ Set(i, Fresh(g), FALSE)                                                                         \* clear
           \/ Set(i, [Touch(e, g) EXCEPT !.indent = <<>>, !.fin = FALSE], low[i])
           \/ \E s \in Sevs \cup {None}, c \in 0..1 : Set(i, New(g, s, c), FALSE)
Spec == Init /\ [][Next]_vars
MaxS(ns) == LET q == {ns[k].s : k \in 1..Len(ns)} \cup {None} IN CHOOSE x \in q : \A y \in q : y <= x
RECURSIVE Size(_, _)
Size(e, k) == IF k > Len(e.notes) THEN 0 ELSE Size(e, k + 1) + LET a == e.notes[k] IN
              IF a.t = <<>> THEN 0 ELSE Len(a.t) + a.l * Len(e.indent) + (IF a.s = None THEN 0 ELSE 1 + Len(e.aglue))
Shallow == \A i \in 1..2 : \A k \in 1..Len(er[i].notes) : er[i].notes[k].l <= 1
Inv == \A i \in 1..2 : LET e == er[i] n == Len(SelectSeq(e.notes, LAMBDA a : a.t # <<>>)) IN
         /\ (~e.data => e.notes = <<>> /\ e.sev = None /\ e.code = 0 /\ IsOK(e, g) /\ Output(e, g, Codes) = <<>>)
         /\ (~low[i] => e.sev >= MaxS(e.notes))                    \* the most severe, unless a severity was assigned
         /\ (MaxS(e.notes) >= g.fail /\ ~low[i] => ~IsOK(e, g))
         /\ Len(Output(e, g, Codes)) = (IF e.sev = None THEN 0 ELSE Len(SevText(g, e.sev)) + Len(e.sglue)) + (IF e.code = 0 THEN 0 ELSE 6)
                + Size(e, 1) + (IF n = 0 THEN 0 ELSE (n - 1) * Len(e.glue) + (IF e.fin THEN Len(e.glue) ELSE 0))
         /\ \A s \in Sevs : LET a == Note(e, g, s, <<97>>) IN
               /\ (a.notes = e.notes) = (s < g.filter) /\ a.sev = (IF e.sev > s THEN e.sev ELSE s)
               /\ (IsOK(a, g) => s < g.fail)
=============================================================================
