---------------------------- MODULE MC_Lexicon ----------------------------
EXTENDS Lexicon, TLC
CONSTANTS Vals, Chars, MaxLen, MaxDefs
Names == UNION {[1..n -> Chars] : n \in 0..MaxLen}
VARIABLE defs
Init == defs = <<>>
Next == \E v \in Vals, a \in Names, b \in Names \cup {<<0>>} :
           /\ Len(defs) < MaxDefs
           /\ defs' = Define(defs, v, IF b = <<0>> THEN <<a>> ELSE <<a, b>>)[1]
Spec == Init /\ [][Next]_defs
Inv == /\ \A i, j \in 1..Len(defs) : i # j => ~EqName(defs[i][2], defs[j][2])           \* names are unique
       /\ \A i \in 1..Len(defs) : LET p == Primary(defs, defs[i][1]) IN
             /\ p # 0 /\ p <= i                                                            \* every value has a primary name
             /\ defs[IndexOfName(defs, defs[p][2])][1] = defs[i][1]                        \* which gives back the value
             /\ IndexOfName(defs, Fold(defs[i][2])) = i
       /\ Cardinality(Primaries(defs)) = Cardinality(Values(defs))
\* definitions are never changed
Keep == [][Len(defs') >= Len(defs) /\ SubSeq(defs', 1, Len(defs)) = defs]_defs
=============================================================================
