---------------------------- MODULE ArenaWriter ----------------------------
(* A writer on the remnant of an arena.  t: all of the text; cap: what may be used of the remnant, held: what was taken
   from it by a restriction.  It grows (to a capacity that the arena decides) instead of dropping text.             *)
EXTENDS BufferWriter
ANew(cap) == [t |-> <<>>, cap |-> cap, held |-> 0]
ASize(x) == Min(Len(x.t), x.cap)
AView(x) == SubSeq(x.t, 1, ASize(x))
AFits(x, t) == Len(x.t) + Len(t) <= x.cap
\* room for n of text (beside what is held): as it is if there is, or else what the arena gives, at least that
ARoom(x, n, got) == IF n <= x.cap THEN x ELSE [x EXCEPT !.cap = Max(n, got)]
\* nothing written may still grow the writer if it is over a restriction
AWrite(x, t, got) == LET y == IF t = <<>> /\ got > x.cap /\ Len(x.t) > x.cap THEN ARoom(x, Len(x.t), got) ELSE x
                     IN IF t = <<>> THEN y ELSE [ARoom(x, Len(x.t) + Len(t), got) EXCEPT !.t = @ \o t]
\* what is not room enough is made so, nothing is committed then
ACommit(x, t, got) == IF AFits(x, t) THEN [x EXCEPT !.t = @ \o t] ELSE ARoom(x, Len(x.t) + Len(t), got)
ADiscard(x, n) == [x EXCEPT !.t = SubSeq(@, 1, Len(@) - Min(n, Len(@)))]
ARestrict(x, n) == [x EXCEPT !.cap = @ - n, !.held = @ + n]
ARestore(x, n) == [t |-> AView(x), cap |-> x.cap + n, held |-> x.held - n]
ACopy(x, d, s, n) == [x EXCEPT !.t = Copy(W(@, ASize(x), Len(@)), d, s, n).mem]
=============================================================================
