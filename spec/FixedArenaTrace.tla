--------------------------- MODULE FixedArenaTrace ---------------------------
EXTENDS VTTrace, FiniteSets
VARIABLES live, free, doubt, used, ctor, dtor
FA == INSTANCE FixedArena
faVars == <<live, free, doubt, used, ctor, dtor>>
Map(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = k][2]]
Obs == /\ live' = Map(Ev.o.live) /\ Ev.o.ctor = ctor' /\ Ev.o.dtor = dtor'
       /\ Ev.o.size = used' * Ev.o.unit /\ Ev.o.misaligned = 0 /\ Ev.o.outside = 0
Step ==
  CASE Ev.op = "make"    -> FA!Make(Ev.p, Ev.v) /\ Obs
    [] Ev.op = "nest"    -> FA!Nest(Ev.p, [i \in 1..Len(Ev.p) |-> IF i = Len(Ev.p) THEN Ev.v ELSE i]) /\ Obs
    [] Ev.op = "fail"    -> FA!Fail(Ev.p) /\ Obs
    [] Ev.op = "destroy" -> FA!Destroy(Ev.p) /\ Obs
    [] Ev.op = "null"    -> FA!DestroyNull /\ Obs
    [] Ev.op = "assign"  -> FA!Assign(Ev.p, Ev.v) /\ Obs
    [] Ev.op = "forget"  -> FA!Forget /\ Obs
    [] OTHER -> FALSE /\ UNCHANGED faVars
Init == TInit /\ FA!FAInit
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED faVars)
Spec == Init /\ [][Next]_<<tid, l, live, free, doubt, used, ctor, dtor>>
Inv == FA!FAInv
=============================================================================
