--------------------------- MODULE IntrusiveDList ---------------------------
(* swoc::IntrusiveDList.  An intrusive list is a sequence of distinct elements; the links live in the elements.
   Abstract state:  lst[i]   the sequence of elements of list i
                    dirty    elements dropped by clear() / move assignment / destruction of a list, whose links are
                             not specified
   The links of every other element follow from the sequences: in a list they point at the neighbours, else null.   *)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Elems(s)) = Len(s)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Prefix(s, n) == SubSeq(s, 1, n)
Suffix(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
DropEnd(s, n) == SubSeq(s, 1, Len(s) - n)
\* Put sequence t before / after the element x of s (x = 0 : the end).
Before(s, x, t) == IF x = 0 THEN s \o t ELSE LET i == Pos(s, x) IN SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i, Len(s))
After(s, x, t)  == IF x = 0 THEN s \o t ELSE LET i == Pos(s, x) IN SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
Without(s, x) == LET i == Pos(s, x) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* Remove [x, y), y = 0 : to the end.
EndPos(s, y) == IF y = 0 THEN Len(s) + 1 ELSE Pos(s, y)
Cut(s, x, y) == LET i == EndPos(s, x) j == EndPos(s, y) IN SubSeq(s, 1, i - 1) \o SubSeq(s, j, Len(s))
CutOut(s, x, y) == LET i == EndPos(s, x) j == EndPos(s, y) IN SubSeq(s, i, j - 1)
Succ(s, x) == LET i == Pos(s, x) IN IF i < Len(s) THEN s[i + 1] ELSE 0
Pred(s, x) == LET i == Pos(s, x) IN IF i > 1 THEN s[i - 1] ELSE 0
Head0(s) == IF s = <<>> THEN 0 ELSE s[1]
Tail0(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Nth(s, n) == IF n < Len(s) THEN s[n + 1] ELSE 0
Min(a, b) == IF a < b THEN a ELSE b

\* take_prefix / split_prefix / take_suffix / split_suffix : <<returned, left>>
TakePrefix(s, n)  == LET k == Min(n, Len(s)) IN <<Prefix(s, k), Drop(s, k)>>
SplitPrefix(s, n) == IF n <= Len(s) THEN <<Prefix(s, n), Drop(s, n)>> ELSE << <<>>, s>>
TakeSuffix(s, n)  == LET k == Min(n, Len(s)) IN <<Suffix(s, k), DropEnd(s, k)>>
SplitSuffix(s, n) == IF n <= Len(s) THEN <<Suffix(s, n), DropEnd(s, n)>> ELSE << <<>>, s>>

\* Links implied by the lists (a sequence of sequences) for element x.
In(lst, x) == {i \in 1..Len(lst) : x \in Elems(lst[i])}
NextOf(lst, x) == IF In(lst, x) = {} THEN 0 ELSE Succ(lst[CHOOSE i \in In(lst, x) : TRUE], x)
PrevOf(lst, x) == IF In(lst, x) = {} THEN 0 ELSE Pred(lst[CHOOSE i \in In(lst, x) : TRUE], x)
=============================================================================
