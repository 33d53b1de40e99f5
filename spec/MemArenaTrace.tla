---------------------------- MODULE MemArenaTrace ----------------------------
EXTENDS VTTrace, FiniteSets
VARIABLES act, frz, live, asz, fsz, rem, hint, last
MA == INSTANCE MemArena
vars == <<tid, l, act, frz, live, asz, fsz, rem, hint, last>>
maVars == <<act, frz, live, asz, fsz, rem, hint, last>>

Blocks(s) == [b \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = b][2]]
Span(s)   == [b |-> s[1], off |-> s[2], n |-> s[3]]
O         == Ev.o
\* What every operation leaves behind must be what the public accessors report.
Obs == /\ act' = Blocks(O.act) /\ frz' = Blocks(O.frz)
       /\ Cardinality({O.act[i][1] : i \in 1..Len(O.act)}) = Len(O.act)
       /\ Cardinality({O.frz[i][1] : i \in 1..Len(O.frz)}) = Len(O.frz)
       /\ rem'.n = Span(O.rem).n /\ (rem'.n > 0 => rem' = Span(O.rem))
       /\ O.remaining = rem'.n
       /\ O.size = asz' /\ O.allocated = asz' + fsz'
       /\ O.reserved = MA!Total(act') + MA!Total(frz')
       /\ O.corrupt = <<>>            \* contents of every live allocation are as they were written
       /\ O.leaked = 0                \* a block that is no longer in the arena has been released
       /\ O.dead = 0                  \* no live block has been released
A2 == Blocks(O.act)
R2 == Span(O.rem)
Same == UNCHANGED maVars
Step ==
  CASE Ev.op = "alloc"    -> /\ MA!Alloc(Ev.n, Ev.pad, Ev.id, Span(Ev.r), A2, R2) /\ Ev.amod = 0 /\ Ev.same /\ Obs
    [] Ev.op = "localize" -> /\ MA!Alloc(Ev.n, Ev.pad, Ev.id, Span(Ev.r), A2, R2) /\ Ev.view = Ev.text /\ Ev.ptr = 0
                             /\ (Ev.c => Ev.term = 0) /\ Obs
    [] Ev.op = "require"  -> MA!Require(Ev.n, Ev.pad, Ev.pad2, A2, R2) /\ Obs
    [] Ev.op = "remnant"  -> /\ MA!Require(Ev.n, Ev.pad, Ev.pad2, A2, R2) /\ Obs
                             /\ Ev.amod = 0 /\ Ev.r[3] = Ev.n
                             /\ (Ev.n > 0 => Ev.r[1] = rem'.b /\ Ev.r[2] = rem'.off + Ev.pad2)
    [] Ev.op = "giveback" -> MA!DiscardSpan(Ev.id, Ev.k, Ev.ok, R2) /\ Obs
    [] Ev.op = "discard"  -> MA!DiscardAll(Ev.hint, R2) /\ Obs
    [] Ev.op = "freeze"   -> MA!Freeze(Ev.hint) /\ Obs
    [] Ev.op = "thaw"     -> MA!Thaw({Ev.static[i] : i \in 1..Len(Ev.static)}, A2, R2) /\ Obs
    [] Ev.op = "clear"    -> MA!Clear(Ev.hint) /\ Obs
    [] Ev.op = "move"     -> /\ UNCHANGED <<act, frz, live, asz, fsz, hint>> /\ rem' = rem /\ last' = 0 /\ Obs
                             /\ Ev.from = <<0, 0, 0, 0>> /\ Ev.usable
                             \* the hint moved too: the arena moved from reserves what its own calls need
                             /\ Ev.grown >= 40 /\ Ev.grown <= 300 + MA!Slack
    [] Ev.op = "contains" -> Same /\ Ev.r = (Ev.b # 0 /\ MA!Contains(Ev.b))
    [] Ev.op = "tiny"     -> Same /\ Ev.threw /\ Ev.clean
    [] Ev.op = "destroy"  -> Same /\ Ev.leaked = 0 /\ Ev.guard
    [] OTHER -> FALSE /\ Same
I0 == Traces[tid].e[1]
\* The first event of an episode describes the arena as constructed: nothing reserved and a hint, or a static block.
Own == IF I0.self = 0 THEN {} ELSE {[id |-> 0, b |-> I0.at[1], off |-> I0.at[2], n |-> I0.self, g |-> "a"]}
Init == /\ TInit /\ MA!MAInit(I0.hint, Blocks(I0.act), Span(I0.rem), Own)
First == Ev.op = "init" /\ Same /\ Ev.size = Ev.self /\ (Ev.self = 0 /\ Ev.static = <<>> => Ev.act = <<>> /\ Ev.rem[3] = 0)
         /\ Ev.rem[3] >= Ev.want
Next == (Advance /\ IF l = 1 THEN First ELSE Step) \/ (AtEnd /\ Same)
Spec == Init /\ [][Next]_vars
Inv == MA!MAInv
=============================================================================
