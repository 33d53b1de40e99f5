-------------------------------- MODULE RBTree --------------------------------
(* A red black tree over a sequence of nodes.  A tree is a record per node: node |-> [l, r, p, red, ..] and a root,
   0 is no node.  The state of the specification is only the order of the nodes; every tree that holds exactly that
   order, linked consistently and colored validly, is a valid representation.                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE order

(* --- what a tree denotes; n bounds the depth, so that cycles end --- *)
RECURSIVE InOrder(_, _, _), BlackH(_, _, _), Height(_, _, _)
InOrder(t, x, n) == IF x = 0 \/ n = 0 \/ x \notin DOMAIN t THEN <<>>
                    ELSE InOrder(t, t[x].l, n - 1) \o <<x>> \o InOrder(t, t[x].r, n - 1)
Max(a, b) == IF a > b THEN a ELSE b
Height(t, x, n) == IF x = 0 \/ n = 0 THEN 0 ELSE 1 + Max(Height(t, t[x].l, n - 1), Height(t, t[x].r, n - 1))
\* black height, -1 if it is not the same on all paths
BlackH(t, x, n) == IF x = 0 \/ n = 0 THEN 0
                   ELSE LET a == BlackH(t, t[x].l, n - 1)  b == BlackH(t, t[x].r, n - 1)
                        IN  IF a < 0 \/ b < 0 \/ a # b THEN -1 ELSE a + (IF t[x].red THEN 0 ELSE 1)
Red(t, x) == x # 0 /\ t[x].red
Linked(t, root) ==
  /\ root # 0 => root \in DOMAIN t /\ t[root].p = 0
  /\ \A x \in DOMAIN t : \A c \in {t[x].l, t[x].r} : c # 0 => c \in DOMAIN t /\ t[c].p = x
Colored(t, root) ==
  /\ ~Red(t, root)
  /\ \A x \in DOMAIN t : t[x].red => ~Red(t, t[x].l) /\ ~Red(t, t[x].r)
  /\ BlackH(t, root, Cardinality(DOMAIN t) + 1) >= 0
Holds(t, root, s) == /\ DOMAIN t = {s[i] : i \in 1..Len(s)}
                     /\ Linked(t, root) /\ InOrder(t, root, Len(s) + 1) = s
Valid(t, root, s) == Holds(t, root, s) /\ Colored(t, root)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)     \* rounded up
Shallow(t, root) == Height(t, root, Cardinality(DOMAIN t) + 1) <= 2 * Log2(Cardinality(DOMAIN t) + 1)

(* --- operations on the order --- *)
InsertAt(s, k, x)  == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))    \* k nodes before it
RemoveAt(s, k)     == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))
Insert(k, x)  == /\ 0 <= k /\ k <= Len(order) /\ x \notin {order[i] : i \in 1..Len(order)} /\ order' = InsertAt(order, k, x)
Remove(k)     == 0 <= k /\ k < Len(order) /\ order' = RemoveAt(order, k)
Replace(k, x) == 0 <= k /\ k < Len(order) /\ order' = [order EXCEPT ![k + 1] = x]
Rotate        == UNCHANGED order

(* --- members kept in the nodes by the hook: size, sum, first, last of the tree below --- *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
KeptRight(t) == \A x \in DOMAIN t :
   LET s == InOrder(t, x, Cardinality(DOMAIN t) + 1) IN t[x].n = Len(s) /\ t[x].sum = Sum(s) /\ t[x].lo = s[1] /\ t[x].hi = s[Len(s)]
=============================================================================
