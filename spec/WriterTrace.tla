---------------------------- MODULE WriterTrace ----------------------------
EXTENDS VTTrace, ArenaWriter
VARIABLES w, texts
(* w: the writer; texts: (arena writers) the allocations of the arena that must stay as they are                     *)
vars == <<tid, l, w, texts>>
Init == TInit /\ w = Detached /\ texts = <<>>
\* everything that can be seen of a writer
Obs(x, o) == /\ o.ext = x.ext /\ o.size = Size(x) /\ o.cap = x.cap /\ o.rem = Remaining(x) /\ o.err = Error(x)
             /\ o.view = View(x) /\ o.aux = Aux(x) /\ o.span = Remaining(x) /\ o.mem = x.mem
Goes(x) == w' = x /\ UNCHANGED texts /\ Obs(x, Ev.o)
AllAre(q, x) == \A i \in 1..Len(q) : q[i] = x
\* an arena writer grows: unless restricted below it, it has all of its content and never is in error
Grown == LET n == Len(w'.t)  k == Min(n, w'.cap)
         IN /\ Ev.o.ext = n /\ Ev.o.size = k /\ Ev.o.err = (n > k) /\ Ev.o.cap = w'.cap /\ Ev.o.rem = w'.cap - k /\ Ev.o.view = SubSeq(w'.t, 1, k) /\ Ev.texts = texts' /\ Ev.aux
            \* the content is the start of the arena's remnant, which has room for what can still be written or restored
            /\ (Ev.o.ext > 0 => Ev.atrem /\ w'.cap + w'.held <= Ev.left)
Step ==
  CASE Ev.op = "new"      -> Goes(W(Ev.mem, Len(Ev.mem), 0))
    [] Ev.op = "write"    -> Goes(Write(w, Ev.t))
    [] Ev.op = "poke"     -> Goes(Commit(Poke(w, Ev.t), Ev.n))
    [] Ev.op = "sub"      -> Ev.so.ext = Len(Ev.t) /\ Ev.so.err = (Len(Ev.t) > Remaining(w)) /\ Goes(IF Ev.keep THEN Commit(Poke(w, Ev.t), Min(Len(Ev.t), Remaining(w))) ELSE Poke(w, Ev.t))
    [] Ev.op = "commit"   -> Ev.ok /\ Goes(Commit(w, Ev.n))
    [] Ev.op = "discard"  -> Goes(Discard(w, Ev.n))
    [] Ev.op = "clear"    -> Goes(Clear(w))
    [] Ev.op = "restrict" -> Ev.throws = (Ev.n > w.cap) /\ Goes(IF Ev.n > w.cap THEN w ELSE Restrict(w, Ev.n))
    [] Ev.op = "restore"  -> Goes(Restore(w, Ev.n))
    [] Ev.op = "copy"     -> Goes(Copy(w, Ev.d, Ev.s, Ev.n))
    [] Ev.op = "move"     -> Goes(w) /\ Obs(Detached, Ev.old)
    [] Ev.op = "detach"   -> Goes(Detached)
    [] Ev.op = "stream"   -> AllAre(Ev.s, View(w)) /\ Goes(w)
    [] Ev.op = "nullbuf"  -> Ev.throws = (Ev.n > 0) /\ UNCHANGED <<w, texts>>
    [] Ev.op = "base"     -> Ev.out = Ev.t /\ UNCHANGED <<w, texts>>
    \* arena writers: w is the content
    [] Ev.op = "anew"     -> w' = ANew(Ev.o.cap) /\ texts' = texts /\ Grown
    [] Ev.op = "awrite"   -> w' = AWrite(w, Ev.t, Ev.o.cap) /\ w'.cap >= w.cap /\ texts' = texts /\ Grown
    [] Ev.op = "acommit"  -> w' = ACommit(w, Ev.t, Ev.o.cap) /\ texts' = texts /\ Ev.ok = AFits(w, Ev.t) /\ (Ev.o.rem >= Len(Ev.t) \/ Ev.ok) /\ Grown
    [] Ev.op = "adiscard" -> w' = ADiscard(w, Ev.n) /\ texts' = texts /\ Grown
    [] Ev.op = "arestrict" -> Ev.throws = (Ev.n > w.cap) /\ w' = (IF Ev.throws THEN w ELSE ARestrict(w, Ev.n)) /\ texts' = texts /\ Grown
    [] Ev.op = "arestore" -> w' = ARestore(w, Ev.n) /\ texts' = texts /\ Grown
    [] Ev.op = "acopy"    -> w' = ACopy(w, Ev.d, Ev.s, Ev.n) /\ texts' = texts /\ Grown
    \* 0: clear, 1: move, 2: output, 3: detach
    [] Ev.op = "amisc"    -> Ev.ok /\ w' = (IF Ev.how = 0 THEN [w EXCEPT !.t = <<>>] ELSE IF Ev.how = 3 THEN ANew(Ev.o.cap) ELSE w) /\ texts' = texts /\ Grown
    [] Ev.op = "akeep"    -> w' = <<>> /\ texts' = Append(texts, w.t) /\ Ev.got = w.t /\ Ev.texts = texts'
    [] Ev.op = "aalloc"   -> w' = <<>> /\ texts' = Append(texts, Ev.t) /\ Ev.texts = texts'
    [] OTHER -> FALSE
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED <<w, texts>>)
Spec == Init /\ [][Next]_vars
=============================================================================
