----------------------------- MODULE FileSystem -----------------------------
(* A file system tree and the operations of swoc::file on it.  A node path is a sequence of names (1..n); fs maps each to
   [k |-> "dir" | "file" | "link", c |-> content, m |-> mode, t |-> target].  The path given to an operation is
   [abs |-> BOOLEAN, c |-> components]: names, Nil (empty: doubled or trailing separator), Dot, Dots.  The root of the tree is
   also the current directory.  All nodes belong to the user.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Nil == 0
Dot == -1
Dots == -2
ENOENT == 2
EACCES == 13
EEXIST == 17
ENOTDIR == 20
EISDIR == 21
EINVAL == 22
EFBIG == 27
ENOTEMPTY == 39
ELOOP == 40
CanR(n) == (n.m \div 256) % 2 = 1
CanW(n) == (n.m \div 128) % 2 = 1
CanX(n) == (n.m \div 64) % 2 = 1
RECURSIVE Mask(_, _, _)
Mask(m, u, b) == IF b = 512 THEN 0 ELSE (IF (m \div b) % 2 = 1 /\ (u \div b) % 2 = 0 THEN b ELSE 0) + Mask(m, u, 2 * b)
Perm(m, u) == Mask(m, u, 1)
NoPath == [abs |-> FALSE, c |-> <<>>]
IsNone(p) == p.c = <<>> /\ ~p.abs
Up(d) == IF d = <<>> THEN d ELSE SubSeq(d, 1, Len(d) - 1)
Dir(m) == [k |-> "dir", c |-> 0, m |-> m, t |-> NoPath]
File(c, m) == [k |-> "file", c |-> c, m |-> m, t |-> NoPath]
Link(t) == [k |-> "link", c |-> 0, m |-> 0, t |-> t]
Found(p) == [e |-> 0, p |-> p, last |-> TRUE]
Lost(e, p, l) == [e |-> e, p |-> p, last |-> l]
NoNames(c) == \A i \in 1..Len(c) : c[i] = Nil
\* Follow the components from the node cur; last: only the last name does not exist, it would be p.
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, cur, c, follow, fuel) ==
  IF c = <<>> THEN Found(cur)
  ELSE IF fs[cur].k # "dir" THEN Lost(ENOTDIR, cur, FALSE)
  ELSE IF NoNames(c) THEN Found(cur)
  ELSE IF Head(c) = Nil THEN Walk(fs, cur, Tail(c), follow, fuel)
  ELSE IF ~CanX(fs[cur]) THEN Lost(EACCES, cur, FALSE)
  ELSE IF Head(c) = Dot THEN Walk(fs, cur, Tail(c), follow, fuel)
  ELSE IF Head(c) = Dots THEN Walk(fs, Up(cur), Tail(c), follow, fuel)
  ELSE LET n == Append(cur, Head(c)) IN
       IF n \notin DOMAIN fs THEN Lost(ENOENT, n, NoNames(Tail(c)))
       ELSE IF fs[n].k = "link" /\ (follow \/ Tail(c) # <<>>)
       THEN IF fuel = 0 THEN Lost(ELOOP, n, FALSE)
            ELSE Walk(fs, IF fs[n].t.abs THEN <<>> ELSE cur, fs[n].t.c \o Tail(c), follow, fuel - 1)
       ELSE Walk(fs, n, Tail(c), follow, fuel)
At(fs, p, follow) == IF IsNone(p) THEN Lost(ENOENT, <<>>, FALSE) ELSE Walk(fs, <<>>, p.c, follow, 40)
Stat(fs, p) == At(fs, p, TRUE)
LStat(fs, p) == At(fs, p, FALSE)
Under(fs, d) == {n \in DOMAIN fs : Len(n) >= Len(d) /\ SubSeq(n, 1, Len(d)) = d}         \* with d
Kids(fs, d) == {n \in DOMAIN fs : Len(n) = Len(d) + 1 /\ Up(n) = d}
Without(fs, s) == [n \in (DOMAIN fs) \ s |-> fs[n]]
With(fs, n, x) == [y \in (DOMAIN fs) \cup {n} |-> IF y = n THEN x ELSE fs[y]]
CanChange(fs, d) == CanW(fs[d]) /\ CanX(fs[d])
\* Results: [r, e, fs]
Res(r, e, fs) == [r |-> r, e |-> e, fs |-> fs]
\* The error for a link to nothing is open (-1: some error).
CreateDir(fs, p, mode) ==
  IF IsNone(p) THEN Res(FALSE, EINVAL, fs)
  ELSE LET w == LStat(fs, p) s == Stat(fs, p) IN
       IF w.e = 0 THEN IF s.e = 0 /\ fs[s.p].k = "dir" THEN Res(TRUE, 0, fs) ELSE Res(FALSE, IF s.e = 0 THEN EEXIST ELSE -1, fs)
       ELSE IF w.e = ENOENT /\ w.last
       THEN IF CanChange(fs, Up(w.p)) THEN Res(TRUE, 0, With(fs, w.p, Dir(mode))) ELSE Res(FALSE, EACCES, fs)
       ELSE Res(FALSE, w.e, fs)
RECURSIVE CreateUpto(_, _, _, _)
CreateUpto(fs, p, k, mode) ==
  IF k > Len(p.c) THEN Res(TRUE, 0, fs)
  ELSE IF p.c[k] = Nil THEN CreateUpto(fs, p, k + 1, mode)
  ELSE LET d == CreateDir(fs, [p EXCEPT !.c = SubSeq(p.c, 1, k)], mode) IN IF d.r THEN CreateUpto(d.fs, p, k + 1, mode) ELSE d
CreateDirs(fs, p, mode) == IF IsNone(p) THEN Res(FALSE, EINVAL, fs) ELSE CreateUpto(fs, p, 1, mode)
Remove(fs, p) ==
  IF IsNone(p) THEN Res(FALSE, EINVAL, fs)
  ELSE LET w == LStat(fs, p) IN
       IF w.e # 0 THEN Res(FALSE, w.e, fs)
       ELSE IF ~CanChange(fs, Up(w.p)) THEN Res(FALSE, EACCES, fs)
       ELSE IF Kids(fs, w.p) # {} THEN Res(FALSE, ENOTEMPTY, fs)
       ELSE Res(TRUE, 0, Without(fs, {w.p}))
\* Everything at and below p, but nothing else.  If some of that can not be removed, or the path leads through something in it
\* (so that it stops being a path to it half way), which other part is removed is open.
Obstacle(fs, n) == ~CanChange(fs, Up(n)) \/ (fs[n].k = "dir" /\ ~CanR(fs[n]))
IsRemoveAll(fs, p, r, e, new) ==
  IF IsNone(p) THEN r = 0 /\ e = EINVAL /\ new = fs
  ELSE LET w == LStat(fs, p) s == Under(fs, w.p) IN
       IF w.e # 0 THEN r = 0 /\ e = w.e /\ new = fs
       ELSE IF (\A n \in s : ~Obstacle(fs, n)) /\ LStat(Without(fs, s \ {w.p}), p) = w THEN r = Cardinality(s) /\ e = 0 /\ new = Without(fs, s)
       ELSE LET gone == (DOMAIN fs) \ DOMAIN new IN
            /\ gone \subseteq s /\ new = Without(fs, gone) /\ r = Cardinality(gone) /\ (e = 0) = (w.p \in gone)
            /\ \A n \in gone : Under(fs, n) \subseteq gone /\ CanChange(fs, Up(n))
\* Content of the file
Load(fs, p) == LET s == Stat(fs, p) IN
  IF s.e # 0 THEN Res(0, s.e, fs) ELSE IF ~CanR(fs[s.p]) THEN Res(0, EACCES, fs)
  ELSE IF fs[s.p].k = "dir" THEN Res(0, EISDIR, fs) ELSE Res(fs[s.p].c, 0, fs)
LastName(c) == IF c = <<>> THEN Nil ELSE c[Len(c)]
\* Copy of a file; size: of the content, limit: on the size of files, umask.  A partial copy has content -1.
Copy(fs, from, to, umask, size, limit) ==
  IF IsNone(from) \/ IsNone(to) THEN Res(FALSE, EINVAL, fs)
  ELSE LET a == Load(fs, from) IN
       IF a.e # 0 THEN Res(FALSE, a.e, fs)
       ELSE LET src == Stat(fs, from).p
                d == Stat(fs, to)
                name == LastName(from.c)
                final == IF d.e = 0 /\ fs[d.p].k = "dir" THEN [to EXCEPT !.c = Append(@, name)] ELSE to
                w == Stat(fs, final)
                put(x) == IF size > limit THEN Res(FALSE, EFBIG, With(fs, w.p, [x EXCEPT !.c = -1])) ELSE Res(TRUE, 0, With(fs, w.p, x))
            IN IF w.e = 0 THEN IF fs[w.p].k = "dir" THEN Res(FALSE, EISDIR, fs) ELSE IF ~CanW(fs[w.p]) THEN Res(FALSE, EACCES, fs)
                               ELSE put([fs[w.p] EXCEPT !.c = a.r])
               ELSE IF w.e = ENOENT /\ w.last
               THEN IF CanChange(fs, Up(w.p)) THEN put(File(a.r, Perm(fs[src].m, umask))) ELSE Res(FALSE, EACCES, fs)
               ELSE Res(FALSE, w.e, fs)
WellFormed(fs) == /\ <<>> \in DOMAIN fs /\ fs[<<>>].k = "dir"
                  /\ \A n \in DOMAIN fs : n # <<>> => Up(n) \in DOMAIN fs /\ fs[Up(n)].k = "dir"
=============================================================================
