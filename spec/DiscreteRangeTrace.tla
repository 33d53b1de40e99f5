-------------------------- MODULE DiscreteRangeTrace --------------------------
EXTENDS VTTrace, FiniteSets
DR == INSTANCE DiscreteRange
r == Ev.a
s == Ev.b
B(x) == x = 1
\* Empty intervals are all the same set, so only the set is checked for results which may be empty.
Unary ==
  /\ B(Ev.empty) = DR!Empty(r) /\ B(Ev.not) = DR!Empty(r) /\ B(Ev.bool) = ~DR!Empty(r)
  /\ B(Ev.single) = (r[1] = r[2])
  /\ B(Ev.maximal) = (r = <<0, Ev.top>>)
  /\ \A i \in 1..Len(Ev.has) : B(Ev.has[i]) = ((i - 1) \in DR!Pts(r))
  /\ DR!Empty(Ev.cleared)
  /\ (r[2] > 0 => Ev.clipped = <<r[1], r[2] - 1>>)
Canonical(x) == ~DR!Empty(x) \/ x = <<Ev.top, 0>>
Binary ==
  /\ B(Ev.eq) = (r = s) /\ B(Ev.ne) = (r # s)
  /\ B(Ev.meets) = DR!Meets(r, s) /\ B(Ev.caret) = DR!Meets(r, s)
  /\ DR!SamePts(Ev.isect, DR!Isect(r, s)) /\ DR!SamePts(Ev.andeq, DR!Isect(r, s))
  /\ DR!SamePts(Ev.hull, DR!HullOf(r, s)) /\ DR!SamePts(Ev.oreq, DR!HullOf(r, s))
  /\ B(Ev.lex) = DR!LexLess(r, s)
  /\ (Canonical(r) /\ Canonical(s)) =>
       /\ B(Ev.sup) = (DR!Pts(s) \subseteq DR!Pts(r)) /\ B(Ev.ge) = B(Ev.sup)
       /\ B(Ev.sub) = (DR!Pts(r) \subseteq DR!Pts(s)) /\ B(Ev.le) = B(Ev.sub)
       /\ B(Ev.ssup) = (DR!Pts(s) \subseteq DR!Pts(r) /\ ~DR!SamePts(r, s)) /\ B(Ev.gt) = B(Ev.ssup)
       /\ B(Ev.ssub) = (DR!Pts(r) \subseteq DR!Pts(s) /\ ~DR!SamePts(r, s)) /\ B(Ev.lt) = B(Ev.ssub)
  /\ (~DR!Empty(r) /\ ~DR!Empty(s)) =>
       /\ B(Ev.adj) = DR!Adjacent(r, s) /\ B(Ev.ladj) = DR!LeftAdj(r, s)
       /\ B(Ev.union) = DR!HasUnion(r, s)
       /\ Ev.rel = DR!Relation(r, s)
       /\ Ev.edge = DR!LeftEdge(r, s)
Init == TInit
Next == (Advance /\ CASE Ev.op = "unary" -> Unary [] Ev.op = "binary" -> Binary [] OTHER -> FALSE) \/ AtEnd
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
