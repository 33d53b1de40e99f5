------------------------------- MODULE Errata -------------------------------
(* swoc::Errata: [data, sev, code, notes, glue (between annotations), aglue (after the severity of an annotation), sglue (after
   the severity), indent, fin (glue after the last annotation)].  data = FALSE is success, with nothing in it.  sev: None if
   not set.  code: value, 0 for none.  An annotation is [t |-> text, s |-> severity or None, l |-> level].
   Globals g: [def, fail, filter (severities), names (of severities), glue, sglue, indent (default texts), asev, acode, aboth
   (prefix of automatic texts)].  codes: texts of the codes 1..n.                                                       *)
EXTENDS BWF
None == -1
Fresh(g) == [data |-> FALSE, sev |-> None, code |-> 0, notes |-> <<>>, glue |-> g.glue, aglue |-> g.sglue, sglue |-> g.sglue,
             indent |-> g.indent, fin |-> TRUE]
Touch(e, g) == IF e.data THEN e ELSE [Fresh(g) EXCEPT !.data = TRUE]
Sev(e, g) == IF e.sev = None THEN g.def ELSE e.sev
\* Nothing but texts for output was set: whether that is success is open.
Blank(e) == e.data /\ e.sev = None /\ e.code = 0 /\ e.notes = <<>>
IsOK(e, g) == ~e.data \/ Sev(e, g) < g.fail
AssignSev(e, g, s) == [Touch(e, g) EXCEPT !.sev = s]
AssignCode(e, g, c) == [Touch(e, g) EXCEPT !.code = c]
Update(e, g, s) == IF e.sev = None \/ e.sev < s THEN AssignSev(e, g, s) ELSE e
Ann(t, s, l) == [t |-> t, s |-> s, l |-> l]
Note(e, g, s, t) == LET a == IF s = None THEN Touch(e, g) ELSE Update(e, g, s)
                    IN IF s # None /\ s < g.filter THEN a ELSE [a EXCEPT !.notes = Append(@, Ann(t, s, 0))]
NoteAll(e, g, f) == IF ~f.data THEN e
                    ELSE LET a == IF f.sev = None THEN Touch(e, g) ELSE Update(e, g, f.sev)
                         IN [a EXCEPT !.notes = @ \o [i \in 1..Len(f.notes) |-> [f.notes[i] EXCEPT !.l = @ + 1]]]
New(g, s, c) == [Fresh(g) EXCEPT !.data = TRUE, !.sev = s, !.code = c]
\* Output
SevText(g, s) == IF s < Len(g.names) THEN g.names[s + 1] ELSE DecI(s)
CodeText(codes, c) == codes[c] \o <<32, 91>> \o DecI(c) \o <<93>>                      \* text [n]
AutoText(g, codes, kind, s, c) == CASE kind = "sev" -> g.asev \o SevText(g, s)
                                    [] kind = "code" -> g.acode \o CodeText(codes, c)
                                    [] kind = "both" -> g.aboth \o SevText(g, s) \o <<58, 32>> \o CodeText(codes, c)
RECURSIVE Rpt(_, _)
Rpt(t, n) == IF n = 0 THEN <<>> ELSE t \o Rpt(t, n - 1)
RECURSIVE Lines(_, _, _, _)
Lines(e, g, k, first) == IF k > Len(e.notes) THEN <<>>
                         ELSE LET a == e.notes[k] IN
                              IF a.t = <<>> THEN Lines(e, g, k + 1, first)
                              ELSE (IF first THEN <<>> ELSE e.glue) \o Rpt(e.indent, a.l) \o (IF a.s = None THEN <<>> ELSE SevText(g, a.s) \o e.aglue)
                                   \o a.t \o Lines(e, g, k + 1, FALSE)
Shown(e) == \E k \in 1..Len(e.notes) : e.notes[k].t # <<>>
Output(e, g, codes) == (IF e.sev = None THEN <<>> ELSE SevText(g, e.sev) \o e.sglue)
                        \o (IF e.code = 0 THEN <<>> ELSE <<91>> \o codes[e.code] \o <<32>> \o DecI(e.code) \o <<93, 32>>)
                        \o Lines(e, g, 1, TRUE) \o (IF Shown(e) /\ e.fin THEN e.glue ELSE <<>>)
=============================================================================
