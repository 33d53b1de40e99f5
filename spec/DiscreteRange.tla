----------------------------- MODULE DiscreteRange -----------------------------
(* Relations between intervals of a discrete metric, defined by the set of points the interval contains. *)
EXTENDS Integers, FiniteSets, Sequences
Pts(r)    == r[1]..r[2]                     \* r = <<min, max>>; no points if min > max
Empty(r)  == r[1] > r[2]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Isect(r, s)  == <<MaxOf(r[1], s[1]), MinOf(r[2], s[2])>>
HullOf(r, s) == IF Empty(r) THEN s ELSE IF Empty(s) THEN r ELSE <<MinOf(r[1], s[1]), MaxOf(r[2], s[2])>>
LeftAdj(r, s) == ~Empty(r) /\ ~Empty(s) /\ r[2] + 1 = s[1]
Adjacent(r, s) == LeftAdj(r, s) \/ LeftAdj(s, r)
Meets(r, s)  == Pts(r) \cap Pts(s) # {}
HasUnion(r, s) == Pts(HullOf(r, s)) = Pts(r) \cup Pts(s)
Relation(r, s) ==
  IF Meets(r, s)
  THEN IF Pts(r) = Pts(s) THEN "equal"
       ELSE IF Pts(r) \subseteq Pts(s) THEN "subset"
       ELSE IF Pts(s) \subseteq Pts(r) THEN "superset" ELSE "overlap"
  ELSE IF Adjacent(r, s) THEN "adjacent" ELSE "none"
LeftEdge(r, s) == IF s[1] < r[1] THEN "none" ELSE IF s[1] <= r[2] THEN "ovlp" ELSE IF s[1] = r[2] + 1 THEN "adj" ELSE "gap"
LexLess(r, s) == r[1] < s[1] \/ (r[1] = s[1] /\ r[2] < s[2])
SamePts(r, s) == Pts(r) = Pts(s)
=============================================================================
