------------------------------ MODULE MC_Path ------------------------------
EXTENDS Path, TLC
CONSTANTS MaxLen, Chars
VARIABLES p, q, r
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Init == p \in Texts /\ q \in Texts /\ r \in Texts
Next == UNCHANGED <<p, q, r>>
Spec == Init /\ [][Next]_<<p, q, r>>
Name(x) == x # <<>> /\ Seps(x) = {}
Inv == /\ Join(Join(p, q), r) = Join(p, Join(q, r))
       /\ IsAbs(Join(p, q)) = (IF q = <<>> THEN IsAbs(p) ELSE IF p = <<>> THEN IsAbs(q) ELSE IsAbs(p) \/ IsAbs(q))
       /\ (q # <<>> => FileName(Join(p, q)) = FileName(q))
       /\ Seps(FileName(p)) = {}
       /\ (Name(q) /\ p # <<>> /\ p[Len(p)] # Sep => Parent(Join(p, q)) = p)
       /\ (Name(FileName(p)) /\ LastSep(p) > 0 /\ Name(FileName(Parent(p))) => Join(Parent(p), FileName(p)) = p)
       /\ (LastSep(p) > 0 => Len(Parent(p)) <= Len(p) /\ IsAbs(Parent(p)) = IsAbs(p))
       /\ (IsAbs(p) => \E x \in {SubSeq(p, 2, Len(p))} : IsRelativePart(x, p))
=============================================================================
