----------------------------- MODULE MC_IPSpace -----------------------------
EXTENDS IPSpace, TLC
CONSTANTS P4, P6, Payloads
Rng(P) == {r \in P \X P : r[1] <= r[2]}
C4(g) == Tag(4, S4!Canon(g))
C6(g) == Tag(6, S6!Canon(g))
Next ==
  \/ \E r \in Rng(P4), c \in Payloads :
       \/ Mark(4, r[1], r[2], c, C4(S4!Paint(r[1], r[2], c)) \o Tag(6, segs6))
       \/ Fill(4, r[1], r[2], c, C4(S4!FillIn(r[1], r[2], c)) \o Tag(6, segs6))
       \/ Erase(4, r[1], r[2], C4(S4!Paint(r[1], r[2], S4!Unmapped)) \o Tag(6, segs6))
       \/ BlendIn(4, r[1], r[2], "sub", c, C4(S4!Blended(r[1], r[2], "sub", c)) \o Tag(6, segs6))
  \/ \E r \in Rng(P6), c \in Payloads :
       \/ Mark(6, r[1], r[2], c, Tag(4, segs4) \o C6(S6!Paint(r[1], r[2], c)))
       \/ Fill(6, r[1], r[2], c, Tag(4, segs4) \o C6(S6!FillIn(r[1], r[2], c)))
       \/ Erase(6, r[1], r[2], Tag(4, segs4) \o C6(S6!Paint(r[1], r[2], S6!Unmapped)))
  \/ Clear(<<>>)
Spec == IPInit(P4, P6) /\ [][Next]_ipVars
Rep == /\ S4!Represents(segs4, f4) /\ S6!Represents(segs6, f6) /\ Coalesced(All) /\ FamilyOrder(All)
       /\ Only(4, All) = Tag(4, segs4) /\ Only(6, All) = Tag(6, segs6)
\* Membership, lookup and intersection agree in both families.
Queries == \A m \in P4 : /\ Contains(4, m) <=> FindR(4, m) # <<>>
                         /\ Contains(4, m) => All[Where(4, m)] = FindR(4, m)[1]
                         /\ IsectR(4, m, m) = FindR(4, m)
QueriesX == \A m \in P6 : /\ Contains(6, m) <=> FindR(6, m) # <<>>
                          /\ Contains(6, m) => All[Where(6, m)] = FindR(6, m)[1]
                          /\ IsectR(6, m, m) = FindR(6, m)
\* Updates of one family never disturb the other.
Isolation == [][(f4' # f4 /\ f6' # f6) => (All' = <<>>)]_ipVars
=============================================================================
