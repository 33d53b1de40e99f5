------------------------------ MODULE FixedArena ------------------------------
(* Pool of objects of one type on top of a memory arena: destroyed instances are reused before the arena grows. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live,   \* object id -> value
          free,   \* ids available for reuse
          doubt,  \* ids of objects whose constructor threw: their memory can be reused, or be lost
          used,   \* number of instances ever taken from the arena (since the arena was cleared)
          ctor, dtor
faVars == <<live, free, doubt, used, ctor, dtor>>
None == [x \in {} |-> 0]
FAInit == live = None /\ free = {} /\ doubt = {} /\ used = 0 /\ ctor = 0 /\ dtor = 0
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
\* An instance is fresh memory only when nothing can be reused; it is never one that is alive.
Take(P) ==
  LET R == P \ doubt IN
  /\ P \cap DOMAIN live = {}
  /\ IF Cardinality(R) <= Cardinality(free) THEN R \subseteq free /\ used' = used
                                           ELSE free \subseteq R /\ used' = used + (Cardinality(R) - Cardinality(free))
  /\ free' = free \ P /\ doubt' = doubt \ P
Make(p, v) ==
  /\ Take({p})
  /\ live' = [x \in DOMAIN live \cup {p} |-> IF x = p THEN v ELSE live[x]]
  /\ ctor' = ctor + 1 /\ dtor' = dtor
\* Objects made while an object is made (by its constructor): all of them distinct. vs: the values.
Nest(ps, vs) ==
  LET P == {ps[i] : i \in 1..Len(ps)} IN
  /\ Cardinality(P) = Len(ps) /\ Take(P)
  /\ live' = [x \in DOMAIN live \cup P |-> IF x \in P THEN vs[CHOOSE i \in 1..Len(ps) : ps[i] = x] ELSE live[x]]
  /\ ctor' = ctor + Len(ps) /\ dtor' = dtor
\* The constructor throws: the memory it was given is available again or is lost, everything else is as it was.
Fail(p) ==
  /\ p \notin DOMAIN live
  /\ IF p \in doubt THEN used' = used ELSE IF free = {} THEN used' = used + 1 ELSE p \in free /\ used' = used
  /\ free' = free \ {p} /\ doubt' = doubt \cup {p}
  /\ UNCHANGED <<live, ctor, dtor>>
Destroy(p) ==
  /\ p \in DOMAIN live /\ live' = Without(live, {p}) /\ free' = free \cup {p}
  /\ dtor' = dtor + 1 /\ UNCHANGED <<doubt, used, ctor>>
DestroyNull == UNCHANGED faVars
Assign(p, v) == p \in DOMAIN live /\ live' = [live EXCEPT ![p] = v] /\ UNCHANGED <<free, doubt, used, ctor, dtor>>
Forget == free' = {} /\ doubt' = {} /\ UNCHANGED <<live, used, ctor, dtor>>       \* clear(): the free list is dropped
FAInv == DOMAIN live \cap (free \cup doubt) = {} /\ free \cap doubt = {} /\ ctor - dtor = Cardinality(DOMAIN live) /\ Cardinality(DOMAIN live \cup free \cup doubt) <= used
=============================================================================
