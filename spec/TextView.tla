------------------------------ MODULE TextView ------------------------------
(* A text view as a cursor: the interval [lo, hi) of a fixed text.  Every extraction is an interval of the view it was
   taken from, and the view afterwards is an interval of the view before: no operation ever reaches outside.

   State: buf (the text, bytes) and v = <<lo, hi>> (0 based, half open; every empty view is <<0, 0>>).
   A selection is the 1 based position of the delimiter in the view, 0 if there is none.                           *)
EXTENDS Integers, Sequences, FiniteSets

Nil == <<0, 0>>
Mk(lo, hi) == IF lo >= hi THEN Nil ELSE <<lo, hi>>
Size(v) == v[2] - v[1]
Txt(b, v) == SubSeq(b, v[1] + 1, v[2])
Min(a, b) == IF a < b THEN a ELSE b

(* --- character classes ("C" locale) --- *)
Space(c) == c \in {9, 10, 11, 12, 13, 32}
Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Alpha(c) == Upper(c) \/ Lower(c)
ToLower(c) == IF Upper(c) THEN c + 32 ELSE c
Elems(s) == {s[i] : i \in 1..Len(s)}
\* sel: [k |-> "c" | "set" | "space" | "digit" | "alpha" | "any" | "none", cs |-> characters]
Match(sel, c) == CASE sel.k = "c" -> c = sel.cs[1] [] sel.k = "set" -> c \in Elems(sel.cs)
                   [] sel.k = "space" -> Space(c) [] sel.k = "digit" -> Digit(c) [] sel.k = "alpha" -> Alpha(c)
                   [] sel.k = "any" -> TRUE [] sel.k = "none" -> FALSE
RECURSIVE FirstFrom(_, _, _), LastFrom(_, _, _)
FirstFrom(t, sel, i) == IF i > Len(t) THEN 0 ELSE IF Match(sel, t[i]) THEN i ELSE FirstFrom(t, sel, i + 1)
LastFrom(t, sel, i)  == IF i < 1 THEN 0 ELSE IF Match(sel, t[i]) THEN i ELSE LastFrom(t, sel, i - 1)
First(t, sel) == FirstFrom(t, sel, 1)
Last(t, sel)  == LastFrom(t, sel, Len(t))
Neg(sel, c) == ~Match(sel, c)
RECURSIVE RunFrom(_, _, _), RunBack(_, _, _)
RunFrom(t, sel, i) == IF i > Len(t) \/ ~Match(sel, t[i]) THEN i - 1 ELSE RunFrom(t, sel, i + 1)
RunBack(t, sel, i) == IF i < 1 \/ ~Match(sel, t[i]) THEN i ELSE RunBack(t, sel, i - 1)
\* number of leading / trailing characters which match
Lead(t, sel)  == RunFrom(t, sel, 1)
Trail(t, sel) == Len(t) - RunBack(t, sel, Len(t))

(* --- operations: <<view afterwards, returned view>> --- *)
Pre(v, n)  == Mk(v[1], v[1] + Min(n, Size(v)))            \* the first n
Suf(v, n)  == Mk(v[2] - Min(n, Size(v)), v[2])            \* the last n
DropP(v, n) == Mk(v[1] + Min(n, Size(v)), v[2])
DropS(v, n) == Mk(v[1], v[2] - Min(n, Size(v)))
\* by size
PrefixN(v, n) == <<v, Pre(v, n)>>
SuffixN(v, n) == <<v, Suf(v, n)>>
RemovePrefixN(v, n) == <<DropP(v, n), DropP(v, n)>>
RemoveSuffixN(v, n) == <<DropS(v, n), DropS(v, n)>>
SplitPrefixN(v, n) == IF n < Size(v) THEN <<DropP(v, n + 1), Pre(v, n)>> ELSE <<v, Nil>>
SplitSuffixN(v, n) == IF n < Size(v) THEN <<DropS(v, n + 1), Suf(v, n)>> ELSE <<v, Nil>>
TakePrefixN(v, n)  == <<DropP(v, n + 1), Pre(v, n)>>
TakeSuffixN(v, n)  == <<DropS(v, n + 1), Suf(v, n)>>
\* by delimiter at position k of the view, 0 if not found
PrefixK(v, k) == <<v, IF k = 0 THEN Nil ELSE Pre(v, k - 1)>>
SuffixK(v, k) == <<v, IF k = 0 THEN Nil ELSE Suf(v, Size(v) - k)>>
RemovePrefixK(v, k) == LET w == IF k = 0 THEN v ELSE DropP(v, k) IN <<w, w>>
RemoveSuffixK(v, k) == LET w == IF k = 0 THEN Nil ELSE DropS(v, Size(v) - k + 1) IN <<w, w>>
SplitPrefixK(v, k) == IF k = 0 THEN <<v, Nil>> ELSE SplitPrefixN(v, k - 1)
SplitSuffixK(v, k) == IF k = 0 THEN <<v, Nil>> ELSE SplitSuffixN(v, Size(v) - k)
TakePrefixK(v, k)  == IF k = 0 THEN <<Nil, v>> ELSE TakePrefixN(v, k - 1)
TakeSuffixK(v, k)  == IF k = 0 THEN <<Nil, v>> ELSE TakeSuffixN(v, Size(v) - k)
\* by leading / trailing run
ClipPrefix(v, t, sel) == LET n == Lead(t, sel) IN <<DropP(v, n), Pre(v, n)>>
ClipSuffix(v, t, sel) == LET n == Trail(t, sel) IN <<DropS(v, n), Suf(v, n)>>
LTrim(v, t, sel) == LET w == DropP(v, Lead(t, sel)) IN <<w, w>>
RTrim(v, t, sel) == LET w == DropS(v, Trail(t, sel)) IN <<w, w>>
Trim(v, t, sel)  == LET w == DropP(v, Lead(t, sel)) IN IF w = Nil THEN <<Nil, Nil>> ELSE LET x == DropS(w, Trail(t, sel)) IN <<x, x>>
Substr(v, pos, n) == <<v, IF pos >= Size(v) THEN Nil ELSE Pre(DropP(v, pos), n)>>

ByN(m, v, n) == CASE m = "prefix" -> PrefixN(v, n) [] m = "suffix" -> SuffixN(v, n)
                  [] m = "remove_prefix" -> RemovePrefixN(v, n) [] m = "remove_suffix" -> RemoveSuffixN(v, n)
                  [] m = "split_prefix" -> SplitPrefixN(v, n) [] m = "split_suffix" -> SplitSuffixN(v, n)
                  [] m = "take_prefix" -> TakePrefixN(v, n) [] m = "take_suffix" -> TakeSuffixN(v, n)
ByK(m, v, t, sel) ==
  CASE m = "prefix" -> PrefixK(v, First(t, sel)) [] m = "suffix" -> SuffixK(v, Last(t, sel))
    [] m = "remove_prefix" -> RemovePrefixK(v, First(t, sel)) [] m = "remove_suffix" -> RemoveSuffixK(v, Last(t, sel))
    [] m = "split_prefix" -> SplitPrefixK(v, First(t, sel)) [] m = "split_suffix" -> SplitSuffixK(v, Last(t, sel))
    [] m = "take_prefix" -> TakePrefixK(v, First(t, sel)) [] m = "take_suffix" -> TakeSuffixK(v, Last(t, sel))
    [] m = "ltrim" -> LTrim(v, t, sel) [] m = "rtrim" -> RTrim(v, t, sel) [] m = "trim" -> Trim(v, t, sel)
    [] m = "clip_prefix" -> ClipPrefix(v, t, sel) [] m = "clip_suffix" -> ClipSuffix(v, t, sel)
Methods == {"prefix", "suffix", "remove_prefix", "remove_suffix", "split_prefix", "split_suffix", "take_prefix", "take_suffix"}
Runs    == {"ltrim", "rtrim", "trim", "clip_prefix", "clip_suffix"}

(* --- comparison --- *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) /\ i > Len(b) THEN 0 ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b)   == CmpFrom(a, b, 1)
Fold(a)     == [i \in 1..Len(a) |-> ToLower(a[i])]
CaseCmp(a, b) == Cmp(Fold(a), Fold(b))
IsPrefix(p, a) == Len(p) <= Len(a) /\ SubSeq(a, 1, Len(p)) = p
IsSuffix(p, a) == Len(p) <= Len(a) /\ SubSeq(a, Len(a) - Len(p) + 1, Len(a)) = p
=============================================================================
