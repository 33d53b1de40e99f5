----------------------------- MODULE MC_TextView -----------------------------
(* Every text up to MaxLen over Alphabet, every sequence of extractions of it: the laws users rely on.             *)
EXTENDS TextView, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES buf, v, ret, how
vars == <<buf, v, ret, how>>
Dot == [k |-> "c", cs |-> <<46>>]
Sels == {Dot, [k |-> "digit", cs |-> <<>>]}
Init == buf = <<>> /\ v = Nil /\ ret = Nil /\ how = <<"build">>
Build == how[1] = "build" /\ Len(buf) < MaxLen /\ \E c \in Alphabet : buf' = Append(buf, c) /\ v' = <<0, Len(buf')>> /\ ret' = Nil /\ how' = how
Do(m, r) == v' = r[1] /\ ret' = r[2] /\ how' = m /\ UNCHANGED buf
Next == \/ Build
        \/ \E m \in Methods, n \in 0..(MaxLen + 1) : Do(<<m, "n", n>>, ByN(m, v, n))
        \/ \E m \in Methods, s \in Sels : Do(<<m, "k", s.k>>, ByK(m, v, Txt(buf, v), s))
        \/ \E m \in Runs, s \in Sels : Do(<<m, "k", s.k>>, ByK(m, v, Txt(buf, v), s))
Spec == Init /\ [][Next]_vars
Inside(w) == 0 <= w[1] /\ w[1] <= w[2] /\ w[2] <= Len(buf)
InvInside == Inside(v) /\ Inside(ret)
\* views only shrink, and what is returned comes from the view before
Within(x, y) == x = Nil \/ (y[1] <= x[1] /\ x[2] <= y[2])
Shrinks == [][how'[1] # "build" => Within(v', v) /\ Within(ret', v)]_vars
\* split / take by delimiter: prefix ++ delimiter ++ rest is the text before; nothing is lost but one delimiter
T0 == Txt(buf, v)
Pieces == [][(Len(how') = 3 /\ how'[2] = "k" /\ how'[1] \in {"split_prefix", "take_prefix"} /\ buf' = buf) =>
               LET s == CHOOSE x \in Sels : x.k = how'[3]
                   k == First(T0, s)
                   a == Txt(buf, ret')  b == Txt(buf, v')
               IN IF k > 0 THEN T0 = a \o <<T0[k]>> \o b /\ First(a, s) = 0
                  ELSE IF how'[1] = "split_prefix" THEN b = T0 /\ a = <<>> ELSE a = T0 /\ b = <<>>]_vars
PiecesS == [][(Len(how') = 3 /\ how'[2] = "k" /\ how'[1] \in {"split_suffix", "take_suffix"} /\ buf' = buf) =>
               LET s == CHOOSE x \in Sels : x.k = how'[3]
                   k == Last(T0, s)
                   a == Txt(buf, ret')  b == Txt(buf, v')
               IN IF k > 0 THEN T0 = b \o <<T0[k]>> \o a /\ First(a, s) = 0
                  ELSE IF how'[1] = "split_suffix" THEN b = T0 /\ a = <<>> ELSE a = T0 /\ b = <<>>]_vars
\* taking by delimiter until empty terminates: each step removes at least one character
Progress == [][(Len(how') = 3 /\ how'[1] \in {"take_prefix", "take_suffix"} /\ buf' = buf /\ v # Nil) => Size(v') < Size(v)]_vars
Trimmed == [][(Len(how') = 3 /\ how'[1] = "trim" /\ buf' = buf /\ v' # Nil) =>
               LET s == CHOOSE x \in Sels : x.k = how'[3] IN Lead(Txt(buf, v'), s) = 0 /\ Trail(Txt(buf, v'), s) = 0]_vars
=============================================================================
