---------------------------- MODULE MC_FixedArena ----------------------------
EXTENDS FixedArena
CONSTANTS Ids, Vals
Bound == ctor <= Cardinality(Ids) + 2
Fresh(n) == {i \in Ids : used < i /\ i <= used + n}
Next == \/ \E v \in Vals, p \in free \cup doubt \cup Fresh(1) : Make(p, v)
        \/ \E n \in 2..3, v \in Vals : \E ps \in [1..n -> free \cup doubt \cup Fresh(n - Cardinality(free))] :
             Nest(ps, [i \in 1..n |-> v])
        \/ \E p \in DOMAIN live : Destroy(p) \/ \E v \in Vals : Assign(p, v)
        \/ \E p \in free \cup doubt \cup Fresh(1) : Fail(p)
        \/ Forget \/ DestroyNull
Spec == FAInit /\ [][Next]_faVars
\* An object keeps its value until it is destroyed or assigned, whatever happens to the others.
Stable == [][\A p \in DOMAIN live \cap DOMAIN live' : Cardinality({q \in DOMAIN live \cap DOMAIN live' : live[q] # live'[q]}) <= 1]_faVars
=============================================================================
