---------------------------- MODULE BufferWriter ----------------------------
(* A writer on a fixed buffer.  mem: the physical buffer; cap: how much of it may be used now; ext: how much has been
   written, including what was dropped.  Nothing outside the first cap bytes ever changes.                          *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
W(mem, cap, ext) == [mem |-> mem, cap |-> cap, ext |-> ext]
Size(w)      == Min(w.ext, w.cap)
Remaining(w) == w.cap - Size(w)
Error(w)     == w.ext > w.cap
View(w)      == SubSeq(w.mem, 1, Size(w))
\* offset of the first unused byte, -1 if there is none
Aux(w)       == IF w.ext < w.cap THEN w.ext ELSE -1
\* the writer's buffer with t laid over it at offset off, clipped to the capacity
Lay(w, off, t) == [i \in 1..Len(w.mem) |-> IF i > off /\ i <= off + Len(t) /\ i <= w.cap THEN t[i - off] ELSE w.mem[i]]
Write(w, t)    == [w EXCEPT !.mem = Lay(w, w.ext, t), !.ext = @ + Len(t)]
Commit(w, n)   == [w EXCEPT !.ext = @ + n]
Discard(w, n)  == [w EXCEPT !.ext = @ - Min(n, @)]
Clear(w)       == [w EXCEPT !.ext = 0]
Restrict(w, n) == [w EXCEPT !.cap = @ - n]           \* n <= cap
Restore(w, n)  == [w EXCEPT !.ext = Size(w), !.cap = @ + n]
\* move bytes inside what has been written
Copy(w, dst, src, n) == LET lim == Size(w)
                            k == Min(n, lim - Max(dst, src))
                        IN IF k <= 0 THEN w ELSE [w EXCEPT !.mem = Lay(w, dst, SubSeq(w.mem, src + 1, src + k))]
Detached == W(<<>>, 0, 0)
\* bytes written by the caller in the unused part (through aux_data)
Poke(w, t) == IF w.ext >= w.cap THEN w ELSE [w EXCEPT !.mem = Lay(w, w.ext, t)]
=============================================================================
