------------------------------ MODULE Lexicon ------------------------------
(* swoc::Lexicon.  defs: the definitions <<value, name>> in the order they were made.  A name is a sequence of bytes and
   is compared without regard to case; it is defined at most once.  The first name of a value is its primary name.  *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Fold(n) == [i \in 1..Len(n) |-> Low(n[i])]
EqName(a, b) == Len(a) = Len(b) /\ Fold(a) = Fold(b)
None == -1
IndexOfName(defs, n) == LET w == {i \in 1..Len(defs) : EqName(defs[i][2], n)} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : TRUE
Primary(defs, v) == LET w == {i \in 1..Len(defs) : defs[i][1] = v} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : \A j \in w : i <= j
Values(defs) == {defs[i][1] : i \in 1..Len(defs)}
Primaries(defs) == {i \in 1..Len(defs) : Primary(defs, defs[i][1]) = i}
\* Define the names of v up to the first that is a duplicate: <<definitions, complete?>>
RECURSIVE Define(_, _, _)
Define(defs, v, names) ==
  IF names = <<>> THEN <<defs, TRUE>>
  ELSE IF IndexOfName(defs, names[1]) # 0 THEN <<defs, FALSE>>
  ELSE Define(Append(defs, <<v, names[1]>>), v, Tail(names))
=============================================================================
