----------------------------- MODULE MC_MemSpan -----------------------------
(* All sequences of operations on a span of a small memory. *)
EXTENDS MemSpan, TLC
CONSTANTS Size, Widths, Base
VARIABLES s, r                        \* the span, the span returned by the last operation
vars == <<s, r>>
Full == Span(0, Size, 1)
Init == s = Full /\ r = Full
Ks == 0..(Size + 1)
Next == \/ \E k \in Ks : \/ s' = s /\ r' \in {Prefix(s, k), Suffix(s, k)}
                         \/ s' = RemovePrefix(s, k) /\ r' = Prefix(s, k)
                         \/ s' = RemoveSuffix(s, k) /\ r' = Suffix(s, k)
                         \/ \E o \in Ks : s' = s /\ r' = Sub(s, o, k)
        \/ \E w \in Widths : CanRebind(s, w) /\ s' = Rebind(s, w) /\ r' = s
        \/ s.w = 1 /\ s.p # Null /\ \E w \in Widths : s' = Align(s, Base, w, w) /\ r' = s
        \/ s' = r /\ r' = s
Spec == Init /\ [][Next]_vars
\* A null span stays null, every other stays inside the memory (an aligned span without space may start past its end).
In(x) == IF x.p = Null THEN x.n = 0 ELSE x.p >= 0 /\ (x.n > 0 => x.p + Bytes(x) <= Size)
Inv == /\ In(s) /\ In(r)
       /\ \A k \in Ks : LET p == Prefix(s, k) q == RemovePrefix(s, k) u == Suffix(s, k) v == RemoveSuffix(s, k)
                        IN s.p # Null => /\ p.n + q.n = s.n /\ p.p = s.p /\ q.p = EndOf(p) /\ EndOf(q) = EndOf(s)
                                         /\ u.n + v.n = s.n /\ v.p = s.p /\ u.p = EndOf(v) /\ EndOf(u) = EndOf(s)
                                         /\ (k <= s.n => p.n = k /\ u.n = k)
       /\ \A o, k \in Ks : Sub(s, o, k).n = RemovePrefix(s, o).n - RemovePrefix(RemovePrefix(s, o), k).n
       /\ \A w \in Widths : CanRebind(s, w) => Bytes(Rebind(s, w)) = Bytes(s) /\ Rebind(Rebind(s, w), s.w) = s
       /\ (s.w = 1 /\ s.p # Null) => \A w \in Widths : LET a == Align(s, Base, w, w) IN
             /\ (Base + a.p) % w = 0 /\ a.p >= s.p /\ a.p - s.p < w /\ a.n % w = 0
             /\ (a.n > 0 => EndOf(a) <= EndOf(s)) /\ (s.n - (a.p - s.p) - a.n < w)
=============================================================================
