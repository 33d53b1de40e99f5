---------------------------- MODULE DiscreteSpace ----------------------------
(* A space over a discrete metric: a partial map from points to payloads, held as an ordered list of segments.

   Abstract state: `f`, total function from the points to payloads, Unmapped (-1) where there is no payload.
   `segs` is what iteration shows: a sequence of <<min, max, payload>>. The specification leaves open where a run of
   equal payloads is cut, everything else about `segs` is determined by `f` (Represents).                          *)
EXTENDS Integers, Sequences, FiniteSets

Unmapped == -1
Default  == 0            \* the default constructed payload

VARIABLES f, segs        \* DOMAIN f is the metric, a contiguous set of integers

dsVars == <<f, segs>>

(* The blending functors the drivers use: result <<new payload, keep?>> *)
Blend(kind, v, c) ==
  CASE kind = "set"  -> <<c, TRUE>>                         \* paint over
    [] kind = "add"  -> <<(v + c) % 4, TRUE>>               \* always keeps
    [] kind = "keep" -> <<IF v = Default THEN c ELSE v, TRUE>>    \* fill like
    [] kind = "sub"  -> <<(v + c) % 3, (v + c) % 3 # 0>>    \* erases where the sum vanishes
    [] kind = "only" -> <<(v + c) % 4, v # Default>>        \* only changes mapped points
    [] kind = "wipe" -> <<v, FALSE>>                        \* removes

Paint(a, b, p)  == [x \in DOMAIN f |-> IF a <= x /\ x <= b THEN p ELSE f[x]]
FillIn(a, b, p) == [x \in DOMAIN f |-> IF a <= x /\ x <= b /\ f[x] = Unmapped THEN p ELSE f[x]]
Blended(a, b, kind, c) ==
  [x \in DOMAIN f |-> IF a <= x /\ x <= b
                    THEN LET r == Blend(kind, IF f[x] = Unmapped THEN Default ELSE f[x], c)
                         IN  IF r[2] THEN r[1] ELSE Unmapped
                    ELSE f[x]]

(* --- what iteration may show for a map g --- *)
Ordered(s)   == \A i \in 1..Len(s) : s[i][1] <= s[i][2] /\ (i > 1 => s[i-1][2] < s[i][1])
Coalesced(s) == \A i \in 2..Len(s) : s[i-1][3] = s[i][3] => s[i-1][2] + 1 < s[i][1]
RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i > Len(s) THEN 0 ELSE s[i][2] - s[i][1] + 1 + SumLen(s, i + 1)
Represents(s, g) ==
  /\ \A i \in 1..Len(s) : s[i][1] \in DOMAIN g /\ s[i][2] \in DOMAIN g
  /\ Ordered(s)
  /\ \A i \in 1..Len(s) : \A x \in s[i][1]..s[i][2] : g[x] = s[i][3]
  /\ SumLen(s, 1) = Cardinality({x \in DOMAIN g : g[x] # Unmapped})

RECURSIVE CanonFrom(_, _)
CanonFrom(g, S) ==          \* the coalesced representation of g restricted to the points in S
  LET M == {x \in S : g[x] # Unmapped}
  IN  IF M = {} THEN <<>>
      ELSE LET lo == CHOOSE x \in M : \A y \in M : x <= y
               E  == {y \in M : y >= lo /\ \A z \in lo..y : z \in M /\ g[z] = g[lo]}
               hi == CHOOSE y \in E : \A z \in E : z <= y
           IN  <<<<lo, hi, g[lo]>>>> \o CanonFrom(g, {x \in S : x > hi})
Canon(g) == CanonFrom(g, DOMAIN g)

DSInit(Points) == f = [x \in Points |-> Unmapped] /\ segs = <<>>

(* --- actions: one per public operation; s is the iteration order shown afterwards --- *)
Update(g, s) == f' = g /\ segs' = s /\ Represents(s, f')

Mark(a, b, p, s)          == Update(Paint(a, b, p), s)
Fill(a, b, p, s)          == Update(FillIn(a, b, p), s)
Erase(a, b, s)            == Update(Paint(a, b, Unmapped), s)
BlendIn(a, b, kind, c, s) == Update(Blended(a, b, kind, c), s)
Clear(s)                  == Update([x \in DOMAIN f |-> Unmapped], s)

(* --- queries: which segments they may answer, as a sequence of segments --- *)
AtOrBefore(m)  == {i \in 1..Len(segs) : segs[i][1] <= m}
FindR(m)       == LET H == {i \in 1..Len(segs) : segs[i][1] <= m /\ m <= segs[i][2]}
                  IN  IF H = {} THEN <<>> ELSE <<segs[CHOOSE i \in H : TRUE]>>
LowerR(m)      == LET H == AtOrBefore(m) IN IF H = {} THEN <<>> ELSE <<segs[Cardinality(H)]>>
UpperR(m)      == LET k == Cardinality(AtOrBefore(m)) + 1 IN IF k > Len(segs) THEN <<>> ELSE <<segs[k]>>
IsectR(a, b)   == SelectSeq(segs, LAMBDA s : s[1] <= b /\ a <= s[2])
=============================================================================
