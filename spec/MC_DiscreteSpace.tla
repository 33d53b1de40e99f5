-------------------------- MODULE MC_DiscreteSpace --------------------------
(* Exhaustive check of the space specification for a small metric: every reachable map and every operation. *)
EXTENDS DiscreteSpace, TLC
CONSTANTS Points, Payloads
Ranges == {r \in Points \X Points : r[1] <= r[2]}
Next ==
  \E r \in Ranges : \E c \in Payloads :
    \/ Mark(r[1], r[2], c, Canon(Paint(r[1], r[2], c)))
    \/ Fill(r[1], r[2], c, Canon(FillIn(r[1], r[2], c)))
    \/ Erase(r[1], r[2], Canon(Paint(r[1], r[2], Unmapped)))
    \/ \E k \in {"set", "add", "keep", "sub", "only", "wipe"} : BlendIn(r[1], r[2], k, c, Canon(Blended(r[1], r[2], k, c)))
    \/ Clear(<<>>)
Spec == DSInit(Points) /\ [][Next]_dsVars
\* Iteration is ordered, disjoint, coalesced and shows exactly the map.
Rep == Represents(segs, f) /\ Coalesced(segs) /\ segs = Canon(f)
\* find / bounds / intersection agree with the map.
Queries ==
  \A m \in Points :
    /\ (f[m] = Unmapped) <=> (FindR(m) = <<>>)
    /\ f[m] # Unmapped => FindR(m)[1][3] = f[m] /\ FindR(m) = LowerR(m)
    /\ UpperR(m) # <<>> => UpperR(m)[1][1] > m
    /\ \A n \in Points : m <= n =>
         ((IsectR(m, n) = <<>>) <=> \A x \in m..n : f[x] = Unmapped)
\* Algebra relating the operations, for every reachable map.
Laws ==
  \A r \in Ranges : \A c \in Payloads :
    /\ Blended(r[1], r[2], "set", c) = Paint(r[1], r[2], c)
    /\ Blended(r[1], r[2], "wipe", c) = Paint(r[1], r[2], Unmapped)
    /\ \A x \in Points : f[x] # Unmapped => FillIn(r[1], r[2], c)[x] = f[x]
    /\ \A x \in Points : (x < r[1] \/ x > r[2]) => \A k \in {"add", "keep", "sub", "only"} : Blended(r[1], r[2], k, c)[x] = f[x]
=============================================================================
