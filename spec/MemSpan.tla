------------------------------ MODULE MemSpan ------------------------------
(* swoc::MemSpan.  A span is an interval of a memory: [p |-> byte offset, n |-> number of elements, w |-> bytes per element]
   (w = 1 for void spans); p = -1 is the null pointer, only for empty spans.  Memory is a sequence of bytes.          *)
EXTENDS Integers, Sequences
Null == -1
Span(p, n, w) == [p |-> p, n |-> n, w |-> w]
Min(a, b) == IF a < b THEN a ELSE b
Bytes(s) == s.n * s.w
EndOf(s) == IF s.p = Null THEN Null ELSE s.p + Bytes(s)
Content(mem, s) == IF s.n = 0 THEN <<>> ELSE SubSeq(mem, s.p + 1, s.p + Bytes(s))
Elem(mem, s, i) == SubSeq(mem, s.p + i * s.w + 1, s.p + (i + 1) * s.w)      \* i from 0
\* A part of a span: k elements from element o.
Part(s, o, k) == IF s.p = Null THEN Span(Null, 0, s.w) ELSE Span(s.p + o * s.w, k, s.w)
Prefix(s, k) == Part(s, 0, Min(k, s.n))
Suffix(s, k) == Part(s, s.n - Min(k, s.n), Min(k, s.n))
RemovePrefix(s, k) == Part(s, Min(k, s.n), s.n - Min(k, s.n))
RemoveSuffix(s, k) == Part(s, 0, s.n - Min(k, s.n))
Sub(s, o, k) == IF o < s.n THEN Part(s, o, Min(k, s.n - o)) ELSE Span(Null, 0, s.w)   \* location of an empty span is open
CanRebind(s, w) == Bytes(s) % w = 0
Rebind(s, w) == Span(s.p, Bytes(s) \div w, w)
\* Alignment of a void span: base is the address of the memory (mod any larger power of 2).
Pad(addr, a) == (a - (addr % a)) % a
Align(s, base, a, size) == LET k == Pad(base + s.p, a) IN Span(s.p + k, IF s.n > k THEN ((s.n - k) \div size) * size ELSE 0, 1)
Contains(s, x) == s.n > 0 /\ s.p <= x /\ x < s.p + Bytes(s)
SameAs(s, t) == s.p = t.p /\ s.n = t.n
Equal(mem, s, t) == s.n = t.n /\ Content(mem, s) = Content(mem, t)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1 ELSE Lex(Tail(a), Tail(b))
Put(mem, p, b) == SubSeq(mem, 1, p) \o b \o SubSeq(mem, p + Len(b) + 1, Len(mem))
RECURSIVE Times(_, _)
Times(b, k) == IF k = 0 THEN <<>> ELSE b \o Times(b, k - 1)
=============================================================================
