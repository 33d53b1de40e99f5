----------------------------- MODULE RBTreeTrace -----------------------------
EXTENDS VTTrace, FiniteSets
VARIABLES order, free
RB == INSTANCE RBTree
vars == <<order, free>>
Tree(s) == [k \in {s[i][1] : i \in 1..Len(s)} |->
             LET x == s[CHOOSE i \in 1..Len(s) : s[i][1] = k]
             IN [l |-> x[2], r |-> x[3], p |-> x[4], red |-> (x[5] = 1), n |-> x[6], sum |-> x[7], lo |-> x[8], hi |-> x[9], bad |-> x[10]]]
\* What was recorded is a valid representation of the new order.
Obs == LET t == Tree(Ev.t)
       IN  /\ Len(Ev.t) = Len(order')
           /\ RB!Holds(t, Ev.root, order')
           /\ (free' \/ (RB!Colored(t, Ev.root) /\ RB!Shallow(t, Ev.root)))
           /\ RB!KeptRight(t) /\ \A x \in DOMAIN t : t[x].bad = 0
           /\ Ev.first = (IF order' = <<>> THEN 0 ELSE order'[1])
Same == UNCHANGED free
Step ==
  CASE Ev.op = "shape"   -> free' = TRUE /\ UNCHANGED order
    [] Ev.op = "insert"  -> RB!Insert(Ev.pos, Ev.id) /\ Same /\ Obs
    [] Ev.op = "remove"  -> RB!Remove(Ev.pos) /\ order[Ev.pos + 1] = Ev.id /\ Same /\ Obs
    [] Ev.op = "replace" -> RB!Replace(Ev.pos, Ev.id) /\ Same /\ Obs
    [] Ev.op = "rotate"  -> RB!Rotate /\ Ev.top /\ Same /\ Obs
    \* an operation on a space of n ranges needs a number of comparisons which grows with the height of a tree only
    [] Ev.op = "cost"    -> Ev.ok /\ Ev.cmp <= 48 + 24 * RB!Log2(Ev.n + 1) /\ UNCHANGED vars
    [] Ev.op = "count"   -> Ev.n = Ev.count /\ UNCHANGED vars
    [] OTHER -> FALSE /\ UNCHANGED vars
Init == TInit /\ order = <<>> /\ free = FALSE
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_<<tid, l, order, free>>
=============================================================================
