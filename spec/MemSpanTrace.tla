---------------------------- MODULE MemSpanTrace ----------------------------
EXTENDS VTTrace, MemSpan
VARIABLES mem, base, reg
msVars == <<mem, base, reg>>
\* An observed span: what every accessor says, so that they all agree with the specified span.
Is(o, s) == /\ o.n = s.n /\ o.bytes = Bytes(s) /\ o.empty = (s.n = 0) /\ o.w = s.w
            /\ (o.p = s.p \/ (s.n = 0 /\ s.p = Null)) /\ o.e = (IF o.p = Null THEN Null ELSE o.p + Bytes(s))
            /\ o.agree
Seen == [p |-> Ev.o.p, n |-> Ev.o.n, w |-> Ev.o.w]
Seen2 == [p |-> Ev.o2.p, n |-> Ev.o2.n, w |-> Ev.o2.w]
S == reg[Ev.i]
J == reg[Ev.j]
Same == UNCHANGED msVars
\* Register i becomes s, as observed.
Set(s) == Is(Ev.o, s) /\ reg' = [reg EXCEPT ![Ev.i] = Seen] /\ UNCHANGED <<mem, base>>
\* Register i becomes s, register k becomes t
Set2(s, t) == Is(Ev.o, s) /\ Is(Ev.o2, t) /\ reg' = [[reg EXCEPT ![Ev.i] = Seen] EXCEPT ![Ev.k] = Seen2] /\ UNCHANGED <<mem, base>>
Write(m) == mem' = m /\ Ev.mem = m /\ UNCHANGED <<base, reg>>
Trim(s, isc) == IF isc /\ s.n > 0 /\ mem[s.p + s.n] = 0 THEN Part(s, 0, s.n - 1) ELSE s
Step ==
  CASE Ev.op = "start" -> mem' = Ev.mem /\ base' = Ev.base /\ reg' = [i \in 1..Ev.regs |-> Span(Null, 0, 1)]
    [] Ev.op = "set" -> Set(CASE Ev.how = "null" -> Span(Null, 0, Ev.w)
                              [] Ev.how = "array" -> Trim(Span(Ev.p, Ev.n, Ev.w), Ev.lit)
                              [] OTHER -> Span(Ev.p, Ev.n, Ev.w))
    [] Ev.op = "conv" -> Set(IF Ev.void THEN Rebind(J, 1) ELSE J)                    \* from register j
    [] Ev.op = "rebind" -> IF CanRebind(J, Ev.w) THEN Ev.thr = FALSE /\ Set(Rebind(J, Ev.w)) ELSE Ev.thr = TRUE /\ Same
    [] Ev.op = "part" -> Set2(S, CASE Ev.f = "prefix" -> Prefix(S, Ev.n) [] Ev.f = "suffix" -> Suffix(S, Ev.n) [] Ev.f = "sub" -> Sub(S, Ev.off, Ev.n)
                                   [] Ev.f = "align" -> Align(S, base, Ev.a, Ev.n))
    [] Ev.op = "clip" -> IF Ev.f = "prefix" THEN Set2(IF Ev.n >= S.n THEN Span(Null, 0, S.w) ELSE RemovePrefix(S, Ev.n), Prefix(S, Ev.n))
                         ELSE Set2(IF Ev.n >= S.n THEN Span(Null, 0, S.w) ELSE RemoveSuffix(S, Ev.n), Suffix(S, Ev.n))
    [] Ev.op = "cut" -> Set(CASE Ev.f = "prefix" -> RemovePrefix(S, Ev.n) [] Ev.f = "suffix" -> RemoveSuffix(S, Ev.n) [] Ev.f = "restrict" -> Prefix(S, Ev.n) [] Ev.f = "clear" -> Span(Null, 0, S.w))
    [] Ev.op = "at" -> Same /\ Ev.n < S.n /\ Ev.r = Elem(mem, S, Ev.n)
    [] Ev.op = "walk" -> Same /\ Ev.r = Content(mem, S)
    [] Ev.op = "contains" -> Same /\ Ev.r = Contains(S, Ev.p)
    [] Ev.op = "cmp" -> /\ Same /\ Ev.eq = Equal(mem, S, J) /\ Ev.ne = ~Ev.eq /\ Ev.same = SameAs(S, J)
                        /\ LET a == Content(mem, S) b == Content(mem, J) c == Lex(a, b)
                           IN IF c # 0 THEN Ev.cmp = c ELSE (Ev.cmp = 0) <=> (a = b)
    [] Ev.op = "cmpx" -> /\ Same /\ Ev.eq = (Content(mem, S) = Ev.b) /\ Ev.ne = ~Ev.eq /\ (Ev.same => Ev.eq)
                         /\ LET a == Content(mem, S) c == Lex(a, Ev.b) IN IF c # 0 THEN Ev.cmp = c ELSE (Ev.cmp = 0) <=> (a = Ev.b)
    [] Ev.op = "asptr" -> Same /\ (IF S.n = Ev.w THEN Ev.r = S.p ELSE Ev.thr)
    [] Ev.op = "apply" -> Write(Put(mem, S.p, [i \in 1..Bytes(S) |-> (IF (i - 1) % S.w = 0 THEN (mem[S.p + i] + 1) % 256 ELSE mem[S.p + i])]))
    [] Ev.op = "store" -> Write(Put(mem, S.p + Ev.n * S.w, Ev.b))
    [] Ev.op = "fill" -> Write(IF S.n = 0 THEN mem ELSE Put(mem, S.p, Times(Ev.b, S.n)))
    [] Ev.op = "copy" -> \* from span j, text or pointer to S, or from S to elsewhere
         /\ (Ev.f = "out" => Ev.r = Content(mem, S))
         /\ Write(LET src == CASE Ev.f = "span" -> SubSeq(Content(mem, J), 1, Min(Bytes(S), Bytes(J))) [] Ev.f = "text" -> SubSeq(Ev.b, 1, Min(Bytes(S), Len(Ev.b))) [] Ev.f = "ptr" -> SubSeq(Ev.b, 1, Bytes(S)) [] Ev.f = "out" -> <<>>
                  IN IF src = <<>> THEN mem ELSE Put(mem, S.p, src))
    [] Ev.op = "objects" -> \* construct and destroy elements in place
         /\ Same /\ Ev.vals = [i \in 1..Ev.n |-> Ev.arg] /\ Ev.live = Ev.n /\ Ev.left = 0 /\ Ev.order
    [] OTHER -> FALSE /\ Same
Init == TInit /\ mem = <<>> /\ base = 0 /\ reg = <<>>
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED msVars)
Spec == Init /\ [][Next]_<<tid, l, mem, base, reg>>
=============================================================================
