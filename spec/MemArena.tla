------------------------------- MODULE MemArena -------------------------------
(* A memory arena: memory is reserved in blocks, allocations are carved out of the active blocks, a generation can
   be frozen and later thawed away.

   Abstract state
     act, frz   block id -> free + used bytes of the block, per generation
     live       set of live allocations [id, b, off, n, g]  (g = "a" active generation, "f" frozen generation)
     asz, fsz   bytes handed out per generation (alignment padding excluded)
     rem        the remnant: [b, off, n], contiguous free space the next allocation is taken from (b = 0: none)
     hint       free space promised for the next reserved block (0: none)
     last       the allocation that was made by the immediately preceding operation, if any (its id, else 0)      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES act, frz, live, asz, fsz, rem, hint, last
maVars == <<act, frz, live, asz, fsz, rem, hint, last>>

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSet(_, _)
SumSet(fn, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN fn[x] + SumSet(fn, S \ {x})
Total(fn) == SumSet(fn, DOMAIN fn)
NoBlocks  == [b \in {} |-> 0]
NoRem     == [b |-> 0, off |-> 0, n |-> 0]

\* own: allocations already present (an arena constructed in its own storage), else {}
MAInit(h, blocks, r, own) == /\ act = blocks /\ frz = NoBlocks /\ live = own /\ fsz = 0
                        /\ asz = SumSet([x \in own |-> x.n], own)
                        /\ rem = r /\ hint = h /\ last = 0

(* --- invariants: what an arena guarantees in every state --- *)
Overlap(x, y) == x.n > 0 /\ y.n > 0 /\ x.b = y.b /\ x.off < y.off + y.n /\ y.off < x.off + x.n
Disjoint      == \A x, y \in live : x.id # y.id => ~Overlap(x, y)
InBlock       == \A x \in live : x.n > 0 =>
                    LET B == IF x.g = "a" THEN act ELSE frz
                    IN  x.b \in DOMAIN B /\ 0 <= x.off /\ x.off + x.n <= B[x.b]
Generations   == DOMAIN act \cap DOMAIN frz = {}
RemnantFree   == rem.n > 0 => /\ rem.b \in DOMAIN act /\ 0 <= rem.off /\ rem.off + rem.n <= act[rem.b]
                              /\ \A x \in live : ~Overlap(x, rem)
Accounting    == asz >= SumSet([x \in live |-> IF x.g = "a" THEN x.n ELSE 0], live)
MAInv         == Disjoint /\ InBlock /\ Generations /\ RemnantFree /\ Accounting

(* --- helpers --- *)
\* How the active blocks may change when space for n bytes is needed: the same, or exactly one more block which is
\* large enough for the request, for the hint if there is one, else for as much as is already reserved.
Promise(n) == Max(n, IF hint > 0 THEN hint ELSE IF act # NoBlocks /\ Total(act) > 0 THEN Total(act) ELSE fsz)
\* Rounding of a block up to whole pages, alignment padding, allocator overhead.
Slack      == 12288
Grown(a2)  == DOMAIN a2 \ DOMAIN act
SpaceOk(n, a2) ==
  /\ DOMAIN act \subseteq DOMAIN a2 /\ \A b \in DOMAIN act : a2[b] = act[b]
  /\ Cardinality(Grown(a2)) <= 1
  /\ Grown(a2) \cap DOMAIN frz = {}
  /\ \A b \in Grown(a2) : a2[b] >= Promise(n) /\ a2[b] <= Promise(n) + Slack
Hint2(a2) == IF Grown(a2) # {} THEN 0 ELSE hint
\* The remnant must be used if it is large enough (pad: bytes to the next suitably aligned byte of the remnant).
Fits(n, pad) == rem.n >= n + pad /\ (rem.b # 0)

(* --- actions; r is the span handed out, a2 / rem2 the blocks and remnant afterwards --- *)
Alloc(n, pad, id, r, a2, rem2) ==
  /\ SpaceOk(n, a2)
  /\ r.n = n
  /\ n > 0 => r.b \in DOMAIN a2
  /\ Fits(n, pad) => (a2 = act /\ (n > 0 => r.b = rem.b /\ r.off = rem.off + pad))
  /\ act' = a2 /\ rem' = rem2 /\ hint' = Hint2(a2)
  /\ live' = live \cup {[id |-> id, b |-> r.b, off |-> r.off, n |-> n, g |-> "a"]}
  /\ asz' = asz + n
  /\ last' = id
  /\ UNCHANGED <<frz, fsz>>

\* After require the remnant has n suitably aligned bytes; an adequate remnant is left alone.
Require(n, pad, pad2, a2, rem2) ==
  /\ SpaceOk(n, a2)
  /\ rem2.n >= n + pad2
  /\ Fits(n, pad) => (a2 = act /\ rem2 = rem)
  /\ act' = a2 /\ rem' = rem2 /\ hint' = Hint2(a2) /\ last' = 0
  /\ UNCHANGED <<frz, live, asz, fsz>>

\* Best effort: either nothing happens or the tail of an allocation is given back. Must work for the latest one.
DiscardSpan(id, k, ok, rem2) ==
  \E x \in live :
    /\ x.id = id /\ x.g = "a" /\ k <= x.n /\ k > 0
    /\ (last = id \/ (rem.n > 0 /\ x.b = rem.b /\ x.off + x.n = rem.off)) => ok   \* the latest, or next to the remnant
    /\ IF ok THEN /\ live' = (live \ {x}) \cup {[x EXCEPT !.n = x.n - k]} /\ asz' = asz - k
             ELSE live' = live /\ asz' = asz
    /\ rem' = rem2 /\ last' = IF ok /\ id # last THEN 0 ELSE last
    /\ UNCHANGED <<act, frz, fsz, hint>>

DiscardAll(h, rem2) ==
  /\ live' = {x \in live : x.g # "a"} /\ asz' = 0 /\ hint' = h /\ rem' = rem2 /\ last' = 0
  /\ UNCHANGED <<act, frz, fsz>>

Freeze(h) ==
  /\ frz' = act /\ act' = NoBlocks
  /\ live' = {[x EXCEPT !.g = "f"] : x \in {y \in live : y.g = "a"}}
  /\ fsz' = asz /\ asz' = 0 /\ hint' = h /\ rem' = NoRem /\ last' = 0

\* st: ids of the static block (at most one); it becomes active again, empty, unless it already is active.
Thaw(st, a2, rem2) ==
  /\ DOMAIN a2 = DOMAIN act \cup st /\ \A b \in DOMAIN act : a2[b] = act[b]
  /\ act' = a2 /\ frz' = NoBlocks /\ fsz' = 0
  /\ live' = {x \in live : x.g = "a"}
  /\ rem' = rem2 /\ last' = 0
  /\ UNCHANGED <<asz, hint>>

Clear(h) ==
  /\ hint' = (IF h > 0 THEN h ELSE fsz + asz)
  /\ act' = NoBlocks /\ frz' = NoBlocks /\ live' = {} /\ asz' = 0 /\ fsz' = 0 /\ rem' = NoRem /\ last' = 0

(* --- observations --- *)
Contains(b) == b \in DOMAIN act \/ b \in DOMAIN frz
=============================================================================
