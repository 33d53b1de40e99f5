--------------------------- MODULE MC_ArenaWriter ---------------------------
EXTENDS ArenaWriter, TLC
CONSTANTS MaxLen, MaxRoom
VARIABLES x, room, hist, plain
(* room: the remnant of the arena; hist: all that was written and not discarded; plain: no restriction was ever exceeded at a restore, nor
   anything copied *)
vars == <<x, room, hist, plain>>
Bytes == {<<1>>, <<1, 2>>, <<2, 1, 2>>}
\* the arena gives a block of any size of at least what is required
Got(need) == {r \in 0..MaxRoom : r >= need}
Init == \E r \in {0, 2} : x = ANew(r) /\ room = r /\ hist = <<>> /\ plain = TRUE
Grows(n, F(_)) == IF n <= x.cap THEN x' = F(x.cap) /\ room' = room
                  ELSE \E r \in Got(n + x.held) : room' = r /\ x' = F(r - x.held)
Next ==
  \/ \E t \in Bytes : Len(hist) + Len(t) <= MaxLen /\ Grows(Len(x.t) + Len(t), LAMBDA g : AWrite(x, t, g)) /\ hist' = hist \o t /\ UNCHANGED plain
  \/ \E t \in Bytes : Len(hist) + Len(t) <= MaxLen /\ Grows(Len(x.t) + Len(t), LAMBDA g : ACommit(x, t, g)) /\ hist' = (IF AFits(x, t) THEN hist \o t ELSE hist) /\ UNCHANGED plain
  \/ \E n \in 1..2 : x' = ADiscard(x, n) /\ hist' = SubSeq(hist, 1, Max(0, Len(hist) - n)) /\ UNCHANGED <<room, plain>>
  \/ \E n \in 1..3 : n <= x.cap /\ x' = ARestrict(x, n) /\ UNCHANGED <<room, hist, plain>>
  \/ \E n \in 1..3 : n <= x.held /\ x' = ARestore(x, n) /\ hist' = SubSeq(hist, 1, Len(x'.t)) /\ UNCHANGED <<room, plain>>
  \/ \E d \in 0..2, s \in 0..2, n \in 1..2 : x' = ACopy(x, d, s, n) /\ plain' = FALSE /\ UNCHANGED <<room, hist>>
Spec == Init /\ [][Next]_vars
\* what can be used now or after all restrictions end is there
Inside == x.cap >= 0 /\ x.held >= 0 /\ x.cap + x.held = room
\* nothing is lost, except by the end of a restriction that is exceeded (as documented)
Kept == Len(x.t) = Len(hist) /\ (plain => x.t = hist)
\* without a restriction there is never an error
NoError == x.held = 0 => Len(x.t) <= x.cap
\* writing never leaves it in error, whatever the restriction
Whole == [][Len(x'.t) > Len(x.t) => Len(x'.t) <= x'.cap]_vars
\* the restriction stays through growth
Stays == [][x'.held # x.held => room' = room]_vars
=============================================================================
