----------------------------- MODULE ScopeTrace -----------------------------
EXTENDS VTTrace
VARIABLES val, open, going      \* going: an exception is on its way out
SC == INSTANCE Scope
vars == <<val, open, going>>
Obs == Ev.v = val'
Step ==
  CASE Ev.op = "start" -> val' = Ev.v /\ open' = <<>> /\ going' = FALSE
    [] Ev.op = "set"   -> SC!Set(Ev.k + 1, Ev.x) /\ Obs /\ UNCHANGED going
    [] Ev.op = "let"   -> SC!Let(Ev.k + 1, Ev.x) /\ Obs /\ UNCHANGED going
    [] Ev.op = "fail"  -> SC!Fail /\ Ev.threw /\ Obs /\ UNCHANGED going
    [] Ev.op = "close" -> SC!Close /\ Obs /\ going' = FALSE
    [] Ev.op = "throw" -> UNCHANGED <<val, open>> /\ Obs /\ going' = TRUE
    \* the overload for the type is called; the generic one only if there is no other
    [] Ev.op = "vary"  -> Ev.got = Ev.x /\ Ev.gen = (IF Ev.x = 2 THEN 2 ELSE 9) /\ UNCHANGED vars
    [] Ev.op = "types" -> /\ Ev.size = 4 /\ Ev.none = 0 /\ Ev.has = <<1, 1, 1, 1>> /\ Ev.not = <<0, 0, 0, 0>>
                          /\ Ev.hom = <<1, 1>> /\ Ev.het = <<0, 0, 0>> /\ UNCHANGED vars
    [] OTHER -> FALSE /\ UNCHANGED vars
Init == TInit /\ val = <<>> /\ open = <<>> /\ going = FALSE
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_<<tid, l, val, open, going>>
=============================================================================
