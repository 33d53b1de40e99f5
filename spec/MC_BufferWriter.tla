--------------------------- MODULE MC_BufferWriter ---------------------------
EXTENDS BufferWriter, TLC
CONSTANTS K, MaxExt
VARIABLES w, hist, held, plain
(* hist: everything written, in order (0: not known); held: capacity taken away; plain: FALSE once content was moved   *)
vars == <<w, hist, held, plain>>
Bytes == {<<1>>, <<2>>, <<1, 2>>, <<2, 1, 2>>}
Init == w = W([i \in 1..K |-> 9], K, 0) /\ hist = <<>> /\ held = 0 /\ plain = TRUE
Zeros(n) == [i \in 1..n |-> 0]
Cut(n) == SubSeq(hist, 1, n)
Next ==
  \/ \E t \in Bytes : w.ext + Len(t) <= MaxExt /\ w' = Write(w, t) /\ hist' = hist \o t /\ UNCHANGED <<held, plain>>
  \/ \E n \in 1..2 : w.ext + n <= MaxExt /\ w' = Commit(w, n) /\ hist' = hist \o Zeros(n) /\ UNCHANGED <<held, plain>>
  \/ \E n \in 0..3 : w' = Discard(w, n) /\ hist' = Cut(w'.ext) /\ plain' = (plain /\ ~Error(w)) /\ UNCHANGED held
  \/ w' = Clear(w) /\ hist' = <<>> /\ UNCHANGED <<held, plain>>
  \/ \E n \in 1..K : n <= w.cap /\ w' = Restrict(w, n) /\ held' = held + n /\ plain' = (plain /\ w.ext <= w'.cap) /\ UNCHANGED hist
  \/ \E n \in 1..held : w' = Restore(w, n) /\ held' = held - n /\ hist' = Cut(w'.ext) /\ UNCHANGED plain
  \/ \E d \in 0..K, s \in 0..K, n \in 0..3 : w' = Copy(w, d, s, n) /\ plain' = FALSE /\ UNCHANGED <<hist, held>>
Spec == Init /\ [][Next]_vars
Bounds == w.cap + held = K /\ Len(w.mem) = K /\ Size(w) <= w.cap /\ Size(w) + Remaining(w) = w.cap /\ Len(hist) = w.ext
\* what is read is what was written, clipped; the error state means exactly that something was dropped
Faithful == plain => \A i \in 1..Size(w) : hist[i] = 0 \/ w.mem[i] = hist[i]
Dropped == Error(w) <=> Len(View(w)) < Len(hist)
\* nothing past the capacity, and nothing already written, changes without a copy or discard
Past == [][\A i \in (w.cap + 1)..K : w'.mem[i] = w.mem[i]]_vars
Steady == [][w'.ext >= w.ext /\ plain' => \A i \in 1..Size(w) : i <= Size(w') => w'.mem[i] = w.mem[i]]_vars
==============================================================================
