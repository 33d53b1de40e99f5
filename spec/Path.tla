-------------------------------- MODULE Path --------------------------------
(* swoc::file::path: the text of a path (sequence of bytes). *)
EXTENDS Integers, Sequences
Sep == 47
IsAbs(p) == p # <<>> /\ p[1] = Sep
Join(p, q) == IF q = <<>> THEN p ELSE IF IsAbs(q) \/ p = <<>> THEN q ELSE IF p[Len(p)] = Sep THEN p \o q ELSE p \o <<Sep>> \o q
Seps(p) == {i \in 1..Len(p) : p[i] = Sep}
LastSep(p) == IF Seps(p) = {} THEN 0 ELSE CHOOSE i \in Seps(p) : \A j \in Seps(p) : j <= i
FileName(p) == SubSeq(p, LastSep(p) + 1, Len(p))
\* The parent of a path without separator is open.
Parent(p) == IF LastSep(p) = 1 THEN <<Sep>> ELSE SubSeq(p, 1, LastSep(p) - 1)
\* Without the root path; of several leading separators one or more can be that.
IsRelativePart(r, p) == IF ~IsAbs(p) THEN r = p ELSE \E n \in 1..Len(p) : (\A i \in 1..n : p[i] = Sep) /\ r = SubSeq(p, n + 1, Len(p))
\* First of the environment variables that is set.
RECURSIVE TempDir(_)
TempDir(env) == IF env = <<>> THEN <<47, 116, 109, 112>> ELSE IF Head(env).set THEN Head(env).v ELSE TempDir(Tail(env))
=============================================================================
