---------------------------- MODULE IPSpaceTrace ----------------------------
EXTENDS VTTrace, FiniteSets
VARIABLES f4, segs4, f6, segs6
IS == INSTANCE IPSpace
ipv == <<f4, segs4, f6, segs6>>
vars == <<tid, l, f4, segs4, f6, segs6>>
\* Every view of the space shows the same sequence.
SetObs == Ev.n = Len(Ev.segs) /\ Ev.empty = (Ev.segs = <<>>) /\ Ev.alt = Ev.segs
Obs == /\ SetObs
       /\ Ev.v4 = IS!Only(4, Ev.segs) /\ Ev.v6 = IS!Only(6, Ev.segs)
       /\ Ev.n4 = Len(Ev.v4) /\ Ev.n6 = Len(Ev.v6) /\ Ev.nf = <<Len(Ev.v4), Len(Ev.v6), 0>>
       /\ Ev.other /\ (Ev.canon => IS!Coalesced(Ev.segs))
Quiet == UNCHANGED ipv
Find == /\ \A i \in 1..Len(Ev.r) : Ev.r[i] = IS!FindR(Ev.f, Ev.m)
        /\ Ev.none
Walk == LET k == IS!Where(Ev.f, Ev.m) IN Ev.fwd = SubSeq(IS!All, k, Len(IS!All)) /\ Ev.bwd = SubSeq(IS!All, 1, k - 1)
Step ==
  CASE Ev.op = "lines" -> Quiet
    [] Ev.op = "mark"  -> Obs /\ IS!Mark(Ev.f, Ev.a, Ev.b, Ev.p, Ev.segs)
    [] Ev.op = "fill"  -> Obs /\ IS!Fill(Ev.f, Ev.a, Ev.b, Ev.p, Ev.segs)
    [] Ev.op = "erase" -> Obs /\ IS!Erase(Ev.f, Ev.a, Ev.b, Ev.segs)
    [] Ev.op = "blend" -> Obs /\ IS!BlendIn(Ev.f, Ev.a, Ev.b, Ev.kind, Ev.c, Ev.segs)
    [] Ev.op = "poke"  -> Obs /\ IS!Poke(Ev.f, Ev.m, Ev.p, Ev.segs)
    [] Ev.op = "same"  -> Obs /\ IS!Same(Ev.segs)
    [] Ev.op = "clear" -> Obs /\ IS!Clear(Ev.segs)
    [] Ev.op = "find"  -> Find /\ Quiet
    [] Ev.op = "walk"  -> Walk /\ Quiet
    [] Ev.op = "isect" -> Ev.r = IS!IsectR(Ev.f, Ev.a, Ev.b) /\ Ev.none /\ Quiet
    \* IPRangeSet: marking and filling are the same, every range has the same (no) payload.
    [] Ev.op = "smark" -> SetObs /\ IS!Coalesced(Ev.segs) /\ IS!Mark(Ev.f, Ev.a, Ev.b, 0, Ev.segs)
    [] Ev.op = "sfill" -> SetObs /\ IS!Coalesced(Ev.segs) /\ IS!Fill(Ev.f, Ev.a, Ev.b, 0, Ev.segs)
    [] Ev.op = "ssame" -> SetObs /\ IS!Same(Ev.segs)
    [] Ev.op = "sclear" -> SetObs /\ IS!Clear(Ev.segs)
    [] Ev.op = "contains" -> Ev.r = IS!Contains(Ev.f, Ev.m) /\ ~Ev.none /\ Quiet
    [] OTHER -> FALSE /\ Quiet
Init == TInit /\ IS!IPInit(0..(Traces[tid].e[1].n4 - 1), 0..(Traces[tid].e[1].n6 - 1))
Next == (Advance /\ Step) \/ (AtEnd /\ Quiet)
Spec == Init /\ [][Next]_vars
=============================================================================
