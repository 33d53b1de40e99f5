---------------------------- MODULE ErrataTrace ----------------------------
EXTENDS VTTrace, Errata
VARIABLES er, res, g, codes          \* errata (the last ones are those of the Rv), results of the Rv
eVars == <<er, res, g, codes>>
Gone == [data |-> FALSE, gone |-> TRUE]
Is(o, e) == /\ o.notes = [k \in 1..Len(e.notes) |-> [t |-> e.notes[k].t, s |-> e.notes[k].s, l |-> e.notes[k].l]]
            /\ o.n = Len(e.notes) /\ o.empty = (e.notes = <<>>) /\ o.agree
            /\ (~Blank(e) => o.ok = IsOK(e, g)) /\ o.hassev = (e.sev # None) /\ o.sev = Sev(e, g)
            /\ o.code = e.code /\ o.glue = e.glue /\ o.aglue = e.aglue /\ o.sglue = e.sglue /\ o.indent = e.indent
\* What the sinks, in the order registered, got in this step: e, if there is something in it.
Sunk(e) == LET p == Output(e, g, codes) s == [k \in 1..g.sinks |-> [k |-> k, t |-> p, n |-> Len(e.notes)]]
           IN IF ~e.data THEN Ev.sunk = <<>> ELSE Ev.sunk = s \/ (Blank(e) /\ Ev.sunk = <<>>)
Quiet == Ev.sunk = <<>>
Same == UNCHANGED eVars
\* Defaults apply to errata without data.
Now(e) == IF e.data \/ e = Gone THEN e ELSE Fresh(g)
E == Now(er[Ev.i])
F == Now(er[Ev.j])
Set(e) == Is(Ev.o, e) /\ er' = [er EXCEPT ![Ev.i] = e] /\ UNCHANGED <<res, g, codes>>
Set2(e, f) == Is(Ev.o, e) /\ Is(Ev.o2, f) /\ er' = [[er EXCEPT ![Ev.i] = e] EXCEPT ![Ev.j] = f] /\ UNCHANGED <<res, g, codes>>
TextOf(s, c) == IF Ev.auto = "" THEN Ev.t ELSE AutoText(g, codes, Ev.auto, s, c)
Step ==
  CASE Ev.op = "start" -> /\ er' = [i \in 1..Ev.regs |-> IF i <= Ev.regs - Ev.rvs THEN Gone ELSE Fresh(Ev.g)] /\ res' = [i \in 1..Ev.rvs |-> <<>>]
                          /\ g' = Ev.g /\ codes' = Ev.codes
    [] Ev.op = "global" -> g' = Ev.g /\ UNCHANGED <<er, res, codes>>
    [] Ev.op = "new" -> \* s = -2: the default severity
         LET e == IF ~Ev.any THEN Fresh(g) ELSE New(g, IF Ev.s = -2 THEN g.def ELSE Ev.s, Ev.c)
         IN E = Gone /\ Quiet /\ Set(IF Ev.note THEN [e EXCEPT !.notes = <<Ann(TextOf(Ev.s, Ev.c), None, 0)>>] ELSE e)
    [] Ev.op = "drop" -> Sunk(E) /\ er' = [er EXCEPT ![Ev.i] = Gone] /\ UNCHANGED <<res, g, codes>>
    [] Ev.op = "sink" -> Sunk(E) /\ Set(Fresh(g))
    [] Ev.op = "clear" -> Quiet /\ Set(Fresh(g))
    [] Ev.op = "note" -> Quiet /\ Set(Note(E, g, Ev.s, TextOf(Ev.s, Ev.c)))
    [] Ev.op = "copy" -> Quiet /\ (IF Ev.i = Ev.j THEN Set(NoteAll(E, g, E)) ELSE Set2(NoteAll(E, g, F), F))
    [] Ev.op = "take" -> Quiet /\ Set2(NoteAll(E, g, F), Fresh(g))
    [] Ev.op = "move" -> E = Gone /\ Quiet /\ Set2(F, Fresh(g))
    [] Ev.op = "moveassign" -> Quiet /\ (IF Ev.i = Ev.j THEN Set(E) ELSE Set2(F, Fresh(g)))
    [] Ev.op = "severity" -> Quiet /\ Set(IF Ev.f = "assign" THEN AssignSev(E, g, Ev.s) ELSE Update(E, g, Ev.s))
    [] Ev.op = "code" -> Quiet /\ Set(AssignCode(E, g, Ev.c))
    [] Ev.op = "noteset" -> Quiet /\ Set([E EXCEPT !.notes[Ev.k].s = Ev.s])
    [] Ev.op = "text" -> Quiet /\ LET e == Touch(E, g) IN
         Set(CASE Ev.f = "glue" -> [e EXCEPT !.glue = Ev.t, !.fin = Ev.fin] [] Ev.f = "aglue" -> [e EXCEPT !.aglue = Ev.t]
               [] Ev.f = "sglue" -> [e EXCEPT !.sglue = Ev.t] [] Ev.f = "indent" -> [e EXCEPT !.indent = Ev.t])
    [] Ev.op = "print" -> /\ Quiet /\ Same /\ LET p == Output(E, g, codes) IN Ev.t = p /\ Ev.stream = p /\ Ev.n = Len(p) /\ Ev.part = Upto(p, Ev.cap)
    \* Rv: r is the index of the value
    [] Ev.op = "value" -> Quiet /\ Ev.res = Ev.v /\ Ev.ok /\ res' = [res EXCEPT ![Ev.r] = Ev.v] /\ UNCHANGED <<er, g, codes>>
    [] Ev.op = "remake" -> \* a new Rv with this value and errata j moved there; the old content of the errata is dropped as by move assign
         Quiet /\ Ev.res = Ev.v /\ res' = [res EXCEPT ![Ev.r] = Ev.v]
         /\ LET f == IF Ev.j = 0 THEN Fresh(g) ELSE Now(er[Ev.j])
            IN /\ Is(Ev.o, f) /\ er' = (IF Ev.j = 0 THEN [er EXCEPT ![Ev.i] = f] ELSE [[er EXCEPT ![Ev.i] = f] EXCEPT ![Ev.j] = Fresh(g)])
               /\ (Ev.j # 0 => Is(Ev.o2, Fresh(g))) /\ UNCHANGED <<g, codes>>
    [] Ev.op = "get" -> Quiet /\ Ev.res = res[Ev.r] /\ Ev.ok /\ Set(E)
    [] OTHER -> FALSE /\ Same
Init == TInit /\ er = <<>> /\ res = <<>> /\ g = 0 /\ codes = <<>>
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED eVars)
Spec == Init /\ [][Next]_<<tid, l, er, res, g, codes>>
=============================================================================
