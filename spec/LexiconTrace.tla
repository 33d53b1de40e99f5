---------------------------- MODULE LexiconTrace ----------------------------
EXTENDS VTTrace, Lexicon
VARIABLES defs, nd, vd          \* definitions, default for names (of values not found), default for values
lxVars == <<defs, nd, vd>>
Unset == [k |-> "none"]
Same == UNCHANGED lxVars
\* What the defaults give. A handler is called exactly once, with the value / name looked up (recorded by the handler).
NameDefault(v) == CASE nd.k = "none" -> Ev.thr = "domain" /\ Ev.calls = <<>>
                    [] nd.k = "name" -> Ev.thr = "" /\ Ev.r = nd.n /\ Ev.calls = <<>>
                    [] nd.k = "fn"   -> Ev.thr = "" /\ Ev.calls = <<v>> /\ Ev.r = Ev.hres
ValueDefault(n) == CASE vd.k = "none"  -> Ev.thr = "domain" /\ Ev.calls = <<>>
                     [] vd.k = "value" -> Ev.thr = "" /\ Ev.r = vd.v /\ Ev.calls = <<>>
                     [] vd.k = "fn"    -> Ev.thr = "" /\ Ev.calls = <<n>> /\ Ev.r = Ev.hres
SetOf(s) == {s[i] : i \in 1..Len(s)}
RevOf(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE JoinNames(_, _, _), JoinNums(_, _), JoinPairs(_, _)
Up(t) == [i \in 1..Len(t) |-> IF t[i] >= 97 /\ t[i] <= 122 THEN t[i] - 32 ELSE t[i]]
JoinNames(s, i, up) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o (IF up THEN Up(s[i][2]) ELSE Fold(s[i][2])) \o JoinNames(s, i + 1, up)
JoinNums(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o Ev.dec[s[i][1]] \o JoinNums(s, i + 1)
JoinPairs(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o <<91>> \o s[i][2] \o <<44>> \o Ev.dec[s[i][1]] \o <<93>> \o JoinPairs(s, i + 1)
Step ==
  CASE Ev.op = "start" -> Same
    [] Ev.op = "define" -> \* names up to the first duplicate are defined, which throws
         LET d == Define(defs, Ev.v, Ev.names) IN
         /\ Ev.thr = (IF Ev.names = <<>> \/ ~d[2] THEN "invalid" ELSE "")
         /\ defs' = d[1] /\ UNCHANGED <<nd, vd>> /\ Ev.count = Cardinality(Values(defs'))
    [] Ev.op = "defaults" -> \* set by constructor or set_default, in any order; the last of a kind wins
         /\ nd' = (IF Ev.nd.k = "same" THEN nd ELSE Ev.nd) /\ vd' = (IF Ev.vd.k = "same" THEN vd ELSE Ev.vd) /\ defs' = defs
    [] Ev.op = "name" -> \* name of a value
         LET p == Primary(defs, Ev.v) IN
         /\ IF p # 0 THEN Ev.thr = "" /\ Ev.r = defs[p][2] /\ Ev.calls = <<>> /\ Ev.moved = FALSE ELSE NameDefault(Ev.v)
         /\ Same
    [] Ev.op = "value" ->
         LET i == IndexOfName(defs, Ev.n) IN
         /\ IF i # 0 THEN Ev.thr = "" /\ Ev.r = defs[i][1] /\ Ev.calls = <<>> ELSE ValueDefault(Ev.n)
         /\ Same
    [] Ev.op = "iter" -> \* pairs of value and primary name; forward and backward
         /\ Len(Ev.f) = Ev.count /\ Ev.count = Cardinality(Values(defs)) /\ Ev.b = RevOf(Ev.f)
         /\ SetOf(Ev.f) = {defs[i] : i \in Primaries(defs)} /\ Len(Ev.f) = Cardinality(SetOf(Ev.f))
         /\ Same
    [] Ev.op = "names" -> \* every value / name pair
         /\ Len(Ev.f) = Len(defs) /\ SetOf(Ev.f) = {defs[i] : i \in 1..Len(defs)} /\ Ev.b = RevOf(Ev.f)
         /\ Same
    [] Ev.op = "print" ->
         /\ SetOf(Ev.f) = {defs[i] : i \in Primaries(defs)} /\ Len(Ev.f) = Cardinality(SetOf(Ev.f))
         /\ Ev.out = (CASE Ev.type = 115 -> JoinNames(Ev.f, 1, FALSE) [] Ev.type = 83 -> JoinNames(Ev.f, 1, TRUE) [] Ev.type = 100 -> JoinNums(Ev.f, 1) [] OTHER -> JoinPairs(Ev.f, 1))
         /\ Same
    [] Ev.op = "move" -> Same
    [] OTHER -> FALSE /\ Same
Init == TInit /\ defs = <<>> /\ nd = Unset /\ vd = Unset
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED lxVars)
Spec == Init /\ [][Next]_<<tid, l, defs, nd, vd>>
=============================================================================
