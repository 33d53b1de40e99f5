------------------------- MODULE DiscreteSpaceTrace -------------------------
EXTENDS VTTrace, FiniteSets
VARIABLES f, segs
DS == INSTANCE DiscreteSpace
vars == <<tid, l, f, segs>>
Obs == Ev.n = Len(Ev.segs) /\ Ev.empty = (Ev.segs = <<>>)
Co  == Ev.canon => DS!Coalesced(Ev.segs)    \* no blend so far in this space
Load == DS!Update([x \in DOMAIN f |-> LET H == {i \in 1..Len(Ev.want) : Ev.want[i][1] <= x /\ x <= Ev.want[i][2]}
                                 IN IF H = {} THEN DS!Unmapped ELSE Ev.want[CHOOSE i \in H : TRUE][3]], Ev.segs)
Quiet == UNCHANGED <<f, segs>>
Step ==
  CASE Ev.op = "metric" -> Quiet
    [] Ev.op = "mark"  -> Obs /\ Co /\ DS!Mark(Ev.a, Ev.b, Ev.p, Ev.segs)
    [] Ev.op = "fill"  -> Obs /\ Co /\ DS!Fill(Ev.a, Ev.b, Ev.p, Ev.segs)
    [] Ev.op = "erase" -> Obs /\ Co /\ DS!Erase(Ev.a, Ev.b, Ev.segs)
    [] Ev.op = "blend" -> Obs /\ Co /\ DS!BlendIn(Ev.a, Ev.b, Ev.kind, Ev.c, Ev.segs)
    [] Ev.op = "clear" -> Obs /\ Co /\ DS!Clear(Ev.segs)
    [] Ev.op = "load"  -> Obs /\ Co /\ Load
    [] Ev.op = "find"  -> Ev.r = DS!FindR(Ev.m) /\ Quiet
    [] Ev.op = "lower" -> Ev.r = DS!LowerR(Ev.m) /\ Quiet
    [] Ev.op = "upper" -> Ev.r = DS!UpperR(Ev.m) /\ Quiet
    [] Ev.op = "isect" -> Ev.r = DS!IsectR(Ev.a, Ev.b) /\ Quiet
    [] OTHER -> FALSE /\ Quiet
Init == TInit /\ DS!DSInit(0..(Traces[tid].e[1].size - 1))
Next == (Advance /\ Step) \/ (AtEnd /\ Quiet)
Spec == Init /\ [][Next]_vars
=============================================================================
