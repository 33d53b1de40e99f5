--------------------------- MODULE MC_DiscreteRange ---------------------------
(* The interval arithmetic agrees with set algebra for every pair (and triple) of intervals of a small metric. *)
EXTENDS DiscreteRange
CONSTANT N
VARIABLES a, b
R == (0..N) \X (0..N)
Init == a \in R /\ b \in R
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
IsectIsSet == Pts(Isect(a, b)) = Pts(a) \cap Pts(b)
HullIsLeast == /\ Pts(a) \cup Pts(b) \subseteq Pts(HullOf(a, b))
               /\ \A c \in R : Pts(a) \cup Pts(b) \subseteq Pts(c) => Pts(HullOf(a, b)) \subseteq Pts(c)
UnionRule == ~Empty(a) /\ ~Empty(b) => (HasUnion(a, b) <=> Meets(a, b) \/ Adjacent(a, b))
AdjDisjoint == Adjacent(a, b) => ~Meets(a, b)
LexTotal == a # b => (LexLess(a, b) # LexLess(b, a))
RelSym == LET inv == [equal |-> "equal", subset |-> "superset", superset |-> "subset", overlap |-> "overlap", adjacent |-> "adjacent", none |-> "none"]
          IN ~Empty(a) /\ ~Empty(b) => Relation(b, a) = inv[Relation(a, b)]
=============================================================================
