------------------------------- MODULE IPSpace -------------------------------
(* An address space over both families: two independent discrete spaces, iterated IPv4 first then IPv6, each in
   address order.  Addresses are numbered along (a compressed picture of) each family's address line.            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES f4, segs4, f6, segs6
ipVars == <<f4, segs4, f6, segs6>>
S4 == INSTANCE DiscreteSpace WITH f <- f4, segs <- segs4
S6 == INSTANCE DiscreteSpace WITH f <- f6, segs <- segs6

\* What a caller sees of one segment: <<family, min, max, payload>>
Tag(fam, s) == [i \in 1..Len(s) |-> <<fam, s[i][1], s[i][2], s[i][3]>>]
Untag(s)    == [i \in 1..Len(s) |-> <<s[i][2], s[i][3], s[i][4]>>]
All         == Tag(4, segs4) \o Tag(6, segs6)
Only(fam, s) == SelectSeq(s, LAMBDA x : x[1] = fam)
\* the sequence s of tagged segments is "all IPv4, then all IPv6".
FamilyOrder(s) == s = Only(4, s) \o Only(6, s)

IPInit(P4, P6) == S4!DSInit(P4) /\ S6!DSInit(P6)

Same4 == UNCHANGED <<f4, segs4>>
Same6 == UNCHANGED <<f6, segs6>>
\* Each update touches one family and leaves the other exactly as it was; s is the whole iteration order afterwards.
Only4(s) == FamilyOrder(s) /\ Same6 /\ Tag(6, segs6) = Only(6, s)
Only6(s) == FamilyOrder(s) /\ Same4 /\ Tag(4, segs4) = Only(4, s)
Part(fam, s) == Untag(Only(fam, s))

Mark(fam, a, b, p, s) == IF fam = 4 THEN S4!Mark(a, b, p, Part(4, s)) /\ Only4(s) ELSE S6!Mark(a, b, p, Part(6, s)) /\ Only6(s)
Fill(fam, a, b, p, s) == IF fam = 4 THEN S4!Fill(a, b, p, Part(4, s)) /\ Only4(s) ELSE S6!Fill(a, b, p, Part(6, s)) /\ Only6(s)
Erase(fam, a, b, s)   == IF fam = 4 THEN S4!Erase(a, b, Part(4, s)) /\ Only4(s) ELSE S6!Erase(a, b, Part(6, s)) /\ Only6(s)
BlendIn(fam, a, b, kind, c, s) == IF fam = 4 THEN S4!BlendIn(a, b, kind, c, Part(4, s)) /\ Only4(s)
                                             ELSE S6!BlendIn(a, b, kind, c, Part(6, s)) /\ Only6(s)
Clear(s) == S4!Clear(<<>>) /\ S6!Clear(<<>>) /\ s = <<>>
Same(s)  == UNCHANGED ipVars /\ s = All

\* Writing the payload through an iterator changes exactly the points of that segment.
Repaint(fn, sg, m, p) == LET i == CHOOSE i \in 1..Len(sg) : sg[i][1] <= m /\ m <= sg[i][2]
                         IN  [x \in DOMAIN fn |-> IF sg[i][1] <= x /\ x <= sg[i][2] THEN p ELSE fn[x]]
Poke(fam, m, p, s) == IF fam = 4 THEN S4!Update(Repaint(f4, segs4, m, p), Part(4, s)) /\ Only4(s)
                                 ELSE S6!Update(Repaint(f6, segs6, m, p), Part(6, s)) /\ Only6(s)

FindR(fam, m)     == IF fam = 4 THEN Tag(4, S4!FindR(m)) ELSE Tag(6, S6!FindR(m))
IsectR(fam, a, b) == IF fam = 4 THEN Tag(4, S4!IsectR(a, b)) ELSE Tag(6, S6!IsectR(a, b))
Contains(fam, m)  == IF fam = 4 THEN f4[m] # S4!Unmapped ELSE f6[m] # S6!Unmapped
Coalesced(s)      == S4!Coalesced(Part(4, s)) /\ S6!Coalesced(Part(6, s))
\* position in iteration order of the segment which holds the point
Where(fam, m) == CHOOSE i \in 1..Len(All) : All[i][1] = fam /\ All[i][2] <= m /\ m <= All[i][3]
=============================================================================
