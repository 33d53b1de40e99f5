------------------------------- MODULE FNVTrace -------------------------------
EXTENDS VTTrace
VARIABLES h
F == INSTANCE FNV
Obs == Ev.o = h'[Ev.x + 1]
Step ==
  CASE Ev.op = "hinit"  -> h' = <<F!Start(Ev.w), F!Start(Ev.w)>>
    [] Ev.op = "hclear" -> h' = [h EXCEPT ![Ev.x + 1] = F!Start(Len(h[1]))] /\ Obs
    [] Ev.op = "hupd"   -> h' = [h EXCEPT ![Ev.x + 1] = F!Hash(@, Ev.t)] /\ Ev.r /\ Obs
    [] Ev.op = "hlow"   -> h' = [h EXCEPT ![Ev.x + 1] = F!Hash(@, F!LowerT(Ev.t))] /\ Ev.r /\ Obs
    [] Ev.op = "hcopy"  -> h' = [h EXCEPT ![Ev.x + 1] = h[2 - Ev.x]] /\ Obs
    [] OTHER -> FALSE /\ UNCHANGED h
Init == TInit /\ h = <<>>
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED h)
Spec == Init /\ [][Next]_<<tid, l, h>>
=============================================================================
