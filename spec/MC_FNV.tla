-------------------------------- MODULE MC_FNV --------------------------------
EXTENDS FNV, TLC
CONSTANTS Octets, MaxLen
VARIABLES a, b, w
Texts == UNION {[1..n -> Octets] : n \in 0..MaxLen}
Init == a \in Texts /\ b \in Texts /\ w \in {4, 8}
Next == UNCHANGED <<a, b, w>>
Spec == Init /\ [][Next]_<<a, b, w>>
\* in pieces it is the same as at once
Pieces == Hash(Hash(Start(w), a), b) = Hash(Start(w), a \o b)
\* a step is a bijection: texts of one length which differ in one octet never collide
Distinct == a # b /\ Len(a) = Len(b) /\ Len(a) = 1 => Hash(Start(w), a) # Hash(Start(w), b)
Ranges == LET h == Hash(Start(w), a) IN Len(h) = w /\ \A i \in 1..w : h[i] \in 0..255
\* published values: "" , "a", "foobar"
Known == /\ Hash(Start(4), <<97>>) = <<44, 41, 12, 228>> /\ Hash(Start(8), <<97>>) = <<140, 236, 1, 134, 76, 220, 99, 175>>
         /\ Hash(Start(4), <<102, 111, 111, 98, 97, 114>>) = <<104, 249, 156, 191>>
         /\ Hash(Start(8), <<102, 111, 111, 98, 97, 114>>) = <<232, 103, 57, 247, 113, 65, 148, 133>>
=============================================================================
