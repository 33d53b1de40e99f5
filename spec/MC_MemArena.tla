----------------------------- MODULE MC_MemArena -----------------------------
(* Exhaustive check of the arena specification: up to MaxBlocks blocks of BlockSize bytes, every placement the
   actions allow, up to MaxAlloc live allocations, freeze / thaw / clear / discard in every order.              *)
EXTENDS MemArena, TLC
CONSTANTS MaxBlocks, BlockSize, MaxAlloc
Ids == 1..MaxBlocks
Used(b, L) == {x \in L : x.b = b}
End(b, L)  == IF Used(b, L) = {} THEN 0 ELSE CHOOSE e \in {x.off + x.n : x \in Used(b, L)} : \A x \in Used(b, L) : x.off + x.n <= e
RemOf(b, a, L) == [b |-> b, off |-> End(b, L), n |-> a[b] - End(b, L)]
Rems(a, L) == IF DOMAIN a = {} THEN {NoRem} ELSE {RemOf(b, a, L) : b \in DOMAIN a}
Fresh == Ids \ (DOMAIN act \cup DOMAIN frz)
Grow  == {act} \cup {[x \in DOMAIN act \cup {b} |-> IF x = b THEN s ELSE act[x]] : b \in {y \in Fresh : \A z \in Fresh : y <= z}, s \in BlockSize..(2*BlockSize)}
NewId == CHOOSE i \in 1..(MaxAlloc + 1) : ~\E x \in live : x.id = i
Next ==
  \/ \E n \in 0..BlockSize, pad \in 0..1, a2 \in Grow : \E b \in DOMAIN a2 :
       /\ Cardinality(live) < MaxAlloc
       /\ LET off == IF b = rem.b THEN rem.off + pad ELSE End(b, live)
              r   == [b |-> b, off |-> off, n |-> n]
              x   == [id |-> NewId, b |-> b, off |-> off, n |-> n, g |-> "a"]
          IN  /\ off + n <= a2[b]
              /\ (Fits(n, pad) \/ b # rem.b)
              /\ \E rem2 \in Rems(a2, live \cup {x}) : Alloc(n, pad, NewId, r, a2, rem2)
  \/ \E n \in 1..BlockSize, a2 \in Grow : \E rem2 \in Rems(a2, live) : Require(n, 0, 0, a2, rem2)
  \/ \E x \in live : x.g = "a" /\ \E k \in 1..BlockSize :
        \E ok \in {x.b \in DOMAIN act /\ x.off + x.n = End(x.b, live)} :
          \E rem2 \in Rems(act, IF ok THEN (live \ {x}) \cup {[x EXCEPT !.n = x.n - k]} ELSE live) : DiscardSpan(x.id, k, ok, rem2)
  \/ \E rem2 \in Rems(act, {}) : DiscardAll(0, rem2)
  \/ \E h \in {0, BlockSize} : Freeze(h)
  \/ Thaw({}, act, rem)
  \/ \E h \in {0, BlockSize} : Clear(h)
Spec == MAInit(BlockSize, NoBlocks, NoRem, {}) /\ [][Next]_maVars
\* Frozen allocations survive everything except thaw, clear and another freeze.
FrozenStable == [][ (frz' # NoBlocks /\ frz' = frz) => \A x \in live : x.g = "f" => x \in live' ]_maVars
Bound == Total(act) + Total(frz) <= MaxBlocks * 2 * BlockSize /\ asz <= 2 * BlockSize
=============================================================================
