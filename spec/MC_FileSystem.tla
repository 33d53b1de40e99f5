--------------------------- MODULE MC_FileSystem ---------------------------
(* All trees that can be made with a few names, and what each operation may change. *)
EXTENDS FileSystem, TLC
CONSTANTS Names, Depth, Modes, Max
VARIABLES fs
Comps == UNION {[1..n -> Names] : n \in 1..Depth}
Paths == [abs : {TRUE}, c : Comps] \cup {[abs |-> FALSE, c |-> <<1, Dots, 2>>], [abs |-> FALSE, c |-> <<1, 2, Nil>>], NoPath}
Targets == [abs : BOOLEAN, c : [1..1 -> Names]]
Init == fs = (<<>> :> Dir(511))
Plant(n, x) == n \notin DOMAIN fs /\ Up(n) \in DOMAIN fs /\ fs[Up(n)].k = "dir" /\ Cardinality(DOMAIN fs) <= Max /\ fs' = With(fs, n, x)
Next == \/ \E n \in Comps : Plant(n, File(Len(n), 420)) \/ (\E t \in Targets : Plant(n, Link(t))) \/ \E m \in Modes : Plant(n, Dir(m))
        \/ \E n \in DOMAIN fs, m \in Modes : n # <<>> /\ fs[n].k = "dir" /\ fs' = [fs EXCEPT ![n].m = m]
        \/ \E p \in Paths : fs' \in {CreateDirs(fs, p, 511).fs, Remove(fs, p).fs} /\ Cardinality(DOMAIN fs') <= Max + 1
        \/ \E p, q \in Paths : fs' = Copy(fs, p, q, 0, 1, 2).fs /\ Cardinality(DOMAIN fs') <= Max + 1
Spec == Init /\ [][Next]_fs
Changed(new) == {n \in DOMAIN fs \cup DOMAIN new : ~(n \in DOMAIN fs /\ n \in DOMAIN new /\ fs[n] = new[n])}
Inv == /\ WellFormed(fs)
       /\ \A p \in Paths :
            /\ LET s == Stat(fs, p) IN s.e = 0 => /\ fs[s.p].k # "link" /\ s = Stat(fs, [abs |-> TRUE, c |-> s.p])        \* canonical
                                                  /\ (\A i \in 1..Len(s.p) : fs[SubSeq(s.p, 1, i)].k # "link")
            /\ LET d == CreateDir(fs, p, 511) a == CreateDirs(fs, p, 511) IN
                 /\ (d.r => Stat(d.fs, p).e = 0 /\ d.fs[Stat(d.fs, p).p].k = "dir" /\ Cardinality(Changed(d.fs)) <= 1) /\ (~d.r => d.fs = fs /\ d.e # 0)
                 /\ (a.r => Stat(a.fs, p).e = 0) /\ WellFormed(a.fs) /\ \A n \in Changed(a.fs) : n \notin DOMAIN fs
            /\ LET x == Remove(fs, p) IN /\ WellFormed(x.fs) /\ (x.r => LStat(x.fs, p).e = ENOENT /\ Cardinality(Changed(x.fs)) = 1) /\ (~x.r => x.fs = fs /\ x.e # 0)
            /\ LET w == LStat(fs, p) IN (w.e = 0 /\ w.p # <<>>) =>
                 LET g == Under(fs, w.p) new == Without(fs, g) IN
                 /\ WellFormed(new)
                 /\ IsRemoveAll(fs, p, Cardinality(g), 0, new) => \A n \in g : ~Obstacle(fs, n)
                 /\ (fs[w.p].k # "dir" /\ CanChange(fs, Up(w.p))) => IsRemoveAll(fs, p, 1, 0, Without(fs, {w.p}))       \* links are not followed
            /\ \A q \in Paths : LET x == Copy(fs, p, q, 0, 1, 2) IN
                 /\ WellFormed(x.fs) /\ (~x.r => x.fs = fs /\ x.e # 0) /\ Cardinality(Changed(x.fs)) <= 1
                 /\ (x.r => /\ Load(x.fs, p) .r = Load(fs, p).r
                            /\ \E n \in DOMAIN x.fs : x.fs[n].c = Load(fs, p).r /\ (\A y \in Changed(x.fs) : y = n))
=============================================================================
