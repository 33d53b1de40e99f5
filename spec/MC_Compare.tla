------------------------------ MODULE MC_Compare ------------------------------
(* The comparison of views is a total order with equality of content (case sensitive) or of folded content, on every
   triple of texts up to MaxLen over Alphabet.                                                                     *)
EXTENDS TextView, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES a, b, c
vars == <<a, b, c>>
Init == a = <<>> /\ b = <<>> /\ c = <<>>
Grow(x) == {Append(x, k) : k \in Alphabet}
Next == \/ Len(a) < MaxLen /\ a' \in Grow(a) /\ b = <<>> /\ c = <<>> /\ UNCHANGED <<b, c>>
        \/ Len(b) < MaxLen /\ b' \in Grow(b) /\ c = <<>> /\ UNCHANGED <<a, c>>
        \/ Len(c) < MaxLen /\ c' \in Grow(c) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Total == /\ Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) = 0 <=> a = b)
         /\ CaseCmp(a, b) = -CaseCmp(b, a) /\ (CaseCmp(a, b) = 0 <=> Fold(a) = Fold(b))
Trans == /\ (Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0)
         /\ (CaseCmp(a, b) <= 0 /\ CaseCmp(b, c) <= 0 => CaseCmp(a, c) <= 0)
Prefixes == /\ (IsPrefix(a, b) => Cmp(a, b) <= 0)
            /\ (IsPrefix(a, b) /\ a # b => Cmp(a, b) = -1)
            /\ (Cmp(a, b) = 0 => CaseCmp(a, b) = 0)
=============================================================================
