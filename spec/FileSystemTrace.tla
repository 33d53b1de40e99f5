--------------------------- MODULE FileSystemTrace ---------------------------
EXTENDS VTTrace, FileSystem
VARIABLES fs, own, open      \* tree, descriptor of each unique_fd (0: none), descriptors that are open
vars == <<fs, own, open>>
TreeOf(t) == [n \in {t[i].p : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : t[i].p = n IN [k |-> t[i].k, c |-> t[i].c, m |-> t[i].m, t |-> t[i].t]]
Tree == IF Ev.same THEN fs ELSE TreeOf(Ev.tree)     \* same: as after the last event
\* The tree is now f; contents of -1 are open.
Now(f) == /\ DOMAIN Tree = DOMAIN f /\ \A n \in DOMAIN f : Tree[n] = f[n] \/ (f[n].c = -1 /\ Tree[n] = [f[n] EXCEPT !.c = Tree[n].c])
          /\ fs' = Tree /\ ~Ev.leak /\ UNCHANGED <<own, open>>
Err(e) == Ev.e = e \/ (e = -1 /\ Ev.e > 0)
Does(x) == Ev.r = x.r /\ Err(x.e) /\ Now(x.fs)
P == Ev.p
S == Stat(fs, P)
Quiet == Now(fs)
\* Whether . and .. need permission to search the directory is left to the system.
Real == \/ Err(S.e) /\ IF S.e = 0 THEN Ev.res = [in |-> TRUE, c |-> S.p] ELSE Ev.none
        \/ S.e = EACCES /\ \E i \in 1..Len(P.c) : P.c[i] < 0
KindIs(s, k) == s.e = 0 /\ fs[s.p].k = k
Step ==
  CASE Ev.op = "start" -> fs' = Tree /\ WellFormed(Tree) /\ own' = [i \in 1..Ev.n |-> 0] /\ open' = {}
    [] Ev.op = "plant" -> fs' = Tree /\ WellFormed(Tree) /\ UNCHANGED <<own, open>>       \* by the driver
    [] Ev.op = "mkdir" -> Does(CreateDir(fs, P, Perm(Ev.m, Ev.umask)))
    [] Ev.op = "mkdirs" -> Does(CreateDirs(fs, P, Perm(Ev.m, Ev.umask)))
    [] Ev.op = "remove" -> Does(Remove(fs, P))
    [] Ev.op = "removeall" -> IsRemoveAll(fs, P, Ev.n, Ev.e, Tree) /\ Now(Tree)
    [] Ev.op = "copy" -> Does(Copy(fs, P, Ev.q, Ev.umask, Ev.size, Ev.limit))
    [] Ev.op = "full" -> \* to a device that takes nothing
         LET a == Load(fs, P) IN /\ Quiet /\ IF IsNone(P) THEN ~Ev.r /\ Ev.e = EINVAL ELSE IF a.e # 0 THEN ~Ev.r /\ Ev.e = a.e
                                  ELSE IF Ev.size > 0 THEN ~Ev.r /\ Ev.e = 28 ELSE Ev.r /\ Ev.e = 0
    [] Ev.op = "load" -> LET a == Load(fs, P) IN Err(a.e) /\ (a.e = 0 => Ev.c = a.r) /\ Quiet
    [] Ev.op = "status" ->
         /\ Quiet /\ Err(S.e) /\ Ev.exists = (S.e = 0) /\ Ev.pexists = (S.e = 0)
         /\ Ev.isdir = KindIs(S, "dir") /\ Ev.isfile = KindIs(S, "file") /\ ~Ev.ischar /\ ~Ev.isblock
         /\ (IF S.e = 0 THEN Ev.type = fs[S.p].k /\ Ev.m = fs[S.p].m /\ Ev.agree ELSE IF S.e = ENOENT THEN Ev.type = "none" ELSE Ev.type \in {"none", "error"})
         /\ Ev.readable = (S.e = 0 /\ CanR(fs[S.p]))
    [] Ev.op = "mtime" -> Quiet /\ Err(S.e) /\ (IF S.e = 0 THEN Ev.agree ELSE Ev.min)
    [] Ev.op = "special" -> Quiet /\ Ev.type = Ev.kind /\ Ev.e = 0 /\ Ev.exists /\ ~Ev.isdir /\ ~Ev.isfile /\ Ev.ischar = (Ev.kind = "char") /\ ~Ev.isblock
    [] Ev.op = "absolute" -> Quiet /\ IF Ev.text THEN Ev.e = 0 /\ Ev.same ELSE Real
    [] Ev.op = "canonical" -> Quiet /\ IF IsNone(P) THEN Ev.e = EINVAL /\ Ev.none ELSE Real
    [] Ev.op = "cwd" -> Quiet /\ Ev.cd = (S.e = 0 /\ fs[S.p].k = "dir" /\ CanX(fs[S.p])) /\ Ev.res = [in |-> TRUE, c |-> IF Ev.cd THEN S.p ELSE <<>>]
    \* unique_fd: open lists the descriptors that are open
    [] Ev.op = "fd" ->
         LET old == own[Ev.i] f == Ev.f IN
         /\ fs' = fs /\ open' = {Ev.open[k] : k \in 1..Len(Ev.open)}
         /\ (CASE f = "own" -> old = 0 /\ own' = [own EXCEPT ![Ev.i] = Ev.fd] /\ open' = open \cup {Ev.fd}
              [] f = "move" -> old = 0 /\ Ev.i # Ev.j /\ own' = [[own EXCEPT ![Ev.i] = own[Ev.j]] EXCEPT ![Ev.j] = 0] /\ open' = open
              [] f = "release" -> own' = [own EXCEPT ![Ev.i] = 0] /\ Ev.fd = old /\ open' = open
              [] f = "drop" -> own' = [own EXCEPT ![Ev.i] = 0] /\ open' = open \ {old}
              [] f = "close" -> own' = own /\ open' = open \ {Ev.fd})
         /\ Ev.val = own'  
    [] OTHER -> FALSE /\ UNCHANGED vars
Init == TInit /\ fs = <<>> /\ own = <<>> /\ open = {}
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_<<tid, l, fs, own, open>>
=============================================================================
