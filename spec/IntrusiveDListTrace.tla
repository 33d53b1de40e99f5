----------------------- MODULE IntrusiveDListTrace -----------------------
(* Conformance of swoc::IntrusiveDList: lists 1..3 over a pool of elements 1..N.  Every event carries the complete
   observation: forward and backward traversal through the iterators, count, empty, head, tail of every list and the
   raw links of every element.                                                                                      *)
EXTENDS VTTrace, IntrusiveDList
VARIABLES lst, dirty
dlVars == <<lst, dirty>>
NL == 3
All == UNION {Elems(lst[i]) : i \in 1..NL}
All1 == UNION {Elems(lst'[i]) : i \in 1..NL}
Obs == LET o == Ev.o IN
  /\ \A i \in 1..NL :
       LET s == lst'[i] q == o.l[i] IN
       /\ q.f = s /\ q.b = Rev(s) /\ q.n = Len(s) /\ q.e = (s = <<>>) /\ q.h = Head0(s) /\ q.t = Tail0(s)
  /\ \A x \in 1..Len(o.nx) : x \notin dirty' => o.nx[x] = NextOf(lst', x) /\ o.pv[x] = PrevOf(lst', x)
\* list i becomes s, list j becomes t; elements added stop being dirty, d become dirty
Put(i, s) == lst' = [lst EXCEPT ![i] = s]
Put2(i, s, j, t) == lst' = [lst EXCEPT ![i] = s, ![j] = t]
Clean == dirty' = dirty \ All1
Taint(d) == dirty' = (dirty \cup d) \ All1
Free(x) == x \notin All
Step ==
  LET i == Ev.i s == lst[i] IN
  CASE Ev.op = "start"   -> lst' = lst /\ dirty' = dirty /\ Obs
    [] Ev.op = "prepend" -> Free(Ev.x) /\ Put(i, <<Ev.x>> \o s) /\ Clean /\ Ev.self /\ Obs
    [] Ev.op = "append"  -> Free(Ev.x) /\ Put(i, s \o <<Ev.x>>) /\ Clean /\ Ev.self /\ Obs
    [] Ev.op = "before"  -> Free(Ev.x) /\ Put(i, Before(s, Ev.t, <<Ev.x>>)) /\ Clean /\ Ev.self /\ Obs
    [] Ev.op = "after"   -> Free(Ev.x) /\ Put(i, After(s, Ev.t, <<Ev.x>>)) /\ Clean /\ Ev.self /\ Obs
    [] Ev.op = "takehead" -> Ev.r = Head0(s) /\ Put(i, IF s = <<>> THEN s ELSE Tail(s)) /\ Clean /\ Obs
    [] Ev.op = "taketail" -> Ev.r = Tail0(s) /\ Put(i, IF s = <<>> THEN s ELSE DropEnd(s, 1)) /\ Clean /\ Obs
    [] Ev.op = "erase"   -> Ev.x \in Elems(s) /\ Ev.r = Succ(s, Ev.x) /\ Put(i, Without(s, Ev.x)) /\ Clean /\ Obs
    [] Ev.op = "cut"     -> Ev.r = Ev.y /\ Put(i, Cut(s, Ev.x, Ev.y)) /\ Clean /\ Obs
    [] Ev.op = "take"    -> \* into the (empty or not) list j by move construction or assignment
         LET j == Ev.j
             p == CASE Ev.how = "tp" -> TakePrefix(s, Ev.n) [] Ev.how = "sp" -> SplitPrefix(s, Ev.n)
                    [] Ev.how = "ts" -> TakeSuffix(s, Ev.n) [] Ev.how = "ss" -> SplitSuffix(s, Ev.n)
         IN j # i /\ Put2(i, p[2], j, p[1]) /\ Taint(Elems(lst[j])) /\ Obs
    [] Ev.op = "splice"  -> \* list j into i; how: append, prepend, before or after an element
         LET j == Ev.j
             r == CASE Ev.how = "append" -> s \o lst[j] [] Ev.how = "prepend" -> lst[j] \o s
                    [] Ev.how = "before" -> Before(s, Ev.t, lst[j]) [] Ev.how = "after" -> After(s, Ev.t, lst[j])
         IN j # i /\ Put2(i, r, j, <<>>) /\ Clean /\ Ev.self /\ Obs
    [] Ev.op = "move"    -> Ev.j # i /\ Put2(i, lst[Ev.j], Ev.j, <<>>) /\ Taint(Elems(s)) /\ Obs
    [] Ev.op = "selfmove" -> Put(i, s) /\ Clean /\ Obs
    [] Ev.op = "clear"   -> Put(i, <<>>) /\ Taint(Elems(s)) /\ Ev.self /\ Obs
    [] Ev.op = "nth"     -> Ev.r = Nth(s, Ev.n) /\ Put(i, s) /\ Clean /\ Obs
    [] Ev.op = "contains" -> Ev.r = (Ev.x \in Elems(s)) /\ Put(i, s) /\ Clean /\ Obs
    [] Ev.op = "iter"    -> \* iterator at element x (0: end)
         /\ Ev.hasnext = (Ev.x # 0)
         /\ Ev.hassucc = (Ev.x # 0 /\ Succ(s, Ev.x) # 0)
         /\ Ev.hasprev = (IF Ev.x = 0 THEN s # <<>> ELSE Pred(s, Ev.x) # 0) /\ Ev.haspred = Ev.hasprev
         /\ Ev.ptr = Ev.x
         /\ Ev.x # 0 => Ev.pre = Succ(s, Ev.x) /\ Ev.post = Ev.x /\ Ev.postto = Succ(s, Ev.x)
         /\ Ev.hasprev => Ev.dec = (IF Ev.x = 0 THEN Tail0(s) ELSE Pred(s, Ev.x)) /\ Ev.pdec = Ev.x /\ Ev.pdecto = Ev.dec
         /\ Ev.eq = (Ev.x = Ev.y)
         /\ Put(i, s) /\ Clean /\ Obs
    [] Ev.op = "apply"   -> \* visits every element once in order; those in rm are erased by the functor
         LET rm == Elems(Ev.rm)
             Keep(x) == x \notin rm
         IN Ev.seen = s /\ Put(i, SelectSeq(s, Keep)) /\ Clean /\ Ev.self /\ Obs
    [] OTHER -> FALSE /\ UNCHANGED dlVars
Init == TInit /\ lst = [i \in 1..NL |-> <<>>] /\ dirty = {}
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED dlVars)
Spec == Init /\ [][Next]_<<tid, l, lst, dirty>>
Inv == /\ \A i \in 1..NL : Distinct(lst[i])
       /\ \A i, j \in 1..NL : i # j => Elems(lst[i]) \cap Elems(lst[j]) = {}
=============================================================================
