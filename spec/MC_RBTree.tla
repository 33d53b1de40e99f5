------------------------------ MODULE MC_RBTree ------------------------------
(* Insertion and removal of a red black tree as algorithms on trees, for every history over few keys: they keep the
   tree valid and change the order as specified; and every valid tree, however made, is shallow.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, S
VARIABLES tree, order, op
R == INSTANCE RBTree
\* functional trees: <<>> or <<red, left, key, right>>
E == <<>>
IsRed(a) == a # E /\ a[1]
T(c, a, x, b) == <<c, a, x, b>>
\* Okasaki: black node with a red child that has a red child
Balance(c, a, x, b) ==
  IF c THEN T(c, a, x, b)
  ELSE IF IsRed(a) /\ IsRed(a[2]) THEN T(TRUE, T(FALSE, a[2][2], a[2][3], a[2][4]), a[3], T(FALSE, a[4], x, b))
  ELSE IF IsRed(a) /\ IsRed(a[4]) THEN T(TRUE, T(FALSE, a[2], a[3], a[4][2]), a[4][3], T(FALSE, a[4][4], x, b))
  ELSE IF IsRed(b) /\ IsRed(b[2]) THEN T(TRUE, T(FALSE, a, x, b[2][2]), b[2][3], T(FALSE, b[2][4], b[3], b[4]))
  ELSE IF IsRed(b) /\ IsRed(b[4]) THEN T(TRUE, T(FALSE, a, x, b[2]), b[3], T(FALSE, b[4][2], b[4][3], b[4][4]))
  ELSE T(c, a, x, b)
Black(a) == IF a = E THEN E ELSE T(FALSE, a[2], a[3], a[4])
RedOf(a) == T(TRUE, a[2], a[3], a[4])
RECURSIVE Ins(_, _)
Ins(a, k) == IF a = E THEN T(TRUE, E, k, E)
             ELSE IF k < a[3] THEN Balance(a[1], Ins(a[2], k), a[3], a[4]) ELSE Balance(a[1], a[2], a[3], Ins(a[4], k))
Insert(a, k) == Black(Ins(a, k))
\* Kahrs: removal
BalL(a, x, b) == IF IsRed(a) THEN T(TRUE, Black(a), x, b)
                 ELSE IF b # E /\ ~IsRed(b) THEN Balance(FALSE, a, x, RedOf(b))
                 ELSE T(TRUE, T(FALSE, a, x, b[2][2]), b[2][3], Balance(FALSE, b[2][4], b[3], RedOf(b[4])))
BalR(a, x, b) == IF IsRed(b) THEN T(TRUE, a, x, Black(b))
                 ELSE IF a # E /\ ~IsRed(a) THEN Balance(FALSE, RedOf(a), x, b)
                 ELSE T(TRUE, Balance(FALSE, RedOf(a[2]), a[3], a[4][2]), a[4][3], T(FALSE, a[4][4], x, b))
RECURSIVE App(_, _)
App(a, b) == IF a = E THEN b ELSE IF b = E THEN a
  ELSE IF IsRed(a) /\ IsRed(b) THEN LET m == App(a[4], b[2])
       IN IF IsRed(m) THEN T(TRUE, T(TRUE, a[2], a[3], m[2]), m[3], T(TRUE, m[4], b[3], b[4]))
          ELSE T(TRUE, a[2], a[3], T(TRUE, m, b[3], b[4]))
  ELSE IF ~IsRed(a) /\ ~IsRed(b) THEN LET m == App(a[4], b[2])
       IN IF IsRed(m) THEN T(TRUE, T(FALSE, a[2], a[3], m[2]), m[3], T(FALSE, m[4], b[3], b[4]))
          ELSE BalL(a[2], a[3], T(FALSE, m, b[3], b[4]))
  ELSE IF IsRed(b) THEN T(TRUE, App(a, b[2]), b[3], b[4]) ELSE T(TRUE, a[2], a[3], App(a[4], b))
RECURSIVE Del(_, _)
Del(a, k) == IF a = E THEN E
  ELSE IF k < a[3] THEN (IF a[2] # E /\ ~IsRed(a[2]) THEN BalL(Del(a[2], k), a[3], a[4]) ELSE T(TRUE, Del(a[2], k), a[3], a[4]))
  ELSE IF k > a[3] THEN (IF a[4] # E /\ ~IsRed(a[4]) THEN BalR(a[2], a[3], Del(a[4], k)) ELSE T(TRUE, a[2], a[3], Del(a[4], k)))
  ELSE App(a[2], a[4])
Delete(a, k) == Black(Del(a, k))
\* as records of nodes
RECURSIVE Nodes(_, _)
Nodes(a, p) == IF a = E THEN [x \in {} |-> 0]
  ELSE (a[3] :> [l |-> IF a[2] = E THEN 0 ELSE a[2][3], r |-> IF a[4] = E THEN 0 ELSE a[4][3], p |-> p, red |-> a[1]])
       @@ Nodes(a[2], a[3]) @@ Nodes(a[4], a[3])
Root(a) == IF a = E THEN 0 ELSE a[3]
Below(s, k) == Cardinality({i \in 1..Len(s) : s[i] < k})
Has(s, k) == \E i \in 1..Len(s) : s[i] = k
Init == tree = E /\ order = <<>> /\ op = <<>>
Next == \E k \in 1..N :
  IF Has(order, k) THEN R!Remove(Below(order, k)) /\ tree' = Delete(tree, k) /\ op' = <<>>
  ELSE Len(order) < S /\ R!Insert(Below(order, k), k) /\ tree' = Insert(tree, k) /\ op' = <<>>
Spec == Init /\ [][Next]_<<tree, order, op>>
Keeps == R!Valid(Nodes(tree, 0), Root(tree), order)
Flat  == R!Shallow(Nodes(tree, 0), Root(tree))
=============================================================================
