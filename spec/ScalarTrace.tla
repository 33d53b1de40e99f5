---------------------------- MODULE ScalarTrace ----------------------------
EXTENDS VTTrace, Scalar, Digits
VARIABLES c, s, label
scVars == <<c, s, label>>
Val(i) == c[i] * s[i]
Regs == 1..Len(s)
\* count, value, conversion to the counter and scale of every register after the operation
Seen == Len(Ev.c) = Len(s) /\ \A i \in Regs : Ev.c[i] = c'[i] /\ Ev.v[i] = c'[i] * s[i]
Same == UNCHANGED scVars
Set(i, x) == c' = [c EXCEPT ![i] = x] /\ UNCHANGED <<s, label>>
\* what a conversion event assigns: the count for register i of the source src
Source(i, e) == CASE e.k = "count" -> e.n
                  [] e.k = "reg" -> Val(e.n) \div s[i]
                  [] e.k = "rreg" -> Round(e.dir, Val(e.n), s[i])
                  [] e.k = "unit" -> Round(e.dir, e.n, s[i])
\* exact comparison with big numbers: |c| * S against r * N
BigOK == LET x == NMulAdd(NDec(Ev.n), Ev.s, 0)                             \* the value, times its sign
             r == NDec(Ev.r)
             y == NMulAdd(r, Ev.d, 0)
             up == (Ev.dir = "up") # Ev.neg                                 \* away from zero
         IN /\ (Ev.rneg => Ev.neg) /\ (Ev.neg /\ ~Ev.rneg => r = <<>>)
            /\ IF up THEN NCmp(y, x) >= 0 /\ (r = <<>> \/ NCmp(NMulAdd(NSub(r, <<1>>), Ev.d, 0), x) < 0)
               ELSE NCmp(y, x) <= 0 /\ NCmp(NMulAdd(NAdd(r, <<1>>), Ev.d, 0), x) > 0
Step ==
  CASE Ev.op = "start" -> c' = [i \in 1..Len(Ev.s) |-> 0] /\ s' = Ev.s /\ label' = Ev.label
    [] Ev.op = "assign" ->  /\ (Ev.src.k = "reg" => Divides(s[Ev.i], s[Ev.src.n])) /\ Set(Ev.i, Source(Ev.i, Ev.src)) /\ Seen
    [] Ev.op = "add" -> Set(Ev.i, c[Ev.i] + Source(Ev.i, Ev.src)) /\ Seen
    [] Ev.op = "sub" -> Set(Ev.i, c[Ev.i] - Source(Ev.i, Ev.src)) /\ Seen
    [] Ev.op = "mul" -> Set(Ev.i, c[Ev.i] * Ev.n) /\ Seen
    [] Ev.op = "div" -> Set(Ev.i, Ev.c[Ev.i]) /\ IsQuot(c'[Ev.i], c[Ev.i], Ev.n) /\ Seen
    [] Ev.op = "step" -> \* ++ -- and the value returned
         Set(Ev.i, c[Ev.i] + Ev.n) /\ Ev.r = (IF Ev.post THEN c[Ev.i] ELSE c'[Ev.i]) /\ Seen
    [] Ev.op = "binr" -> \* register (+-) rounded
         Same /\ Seen /\ Ev.scale = s[Ev.i] /\ Ev.r = (IF Ev.left THEN Source(Ev.i, Ev.src) + (IF Ev.neg THEN -c[Ev.i] ELSE c[Ev.i])
                                                     ELSE c[Ev.i] + (IF Ev.neg THEN -Source(Ev.i, Ev.src) ELSE Source(Ev.i, Ev.src)))
    [] Ev.op = "bin" -> \* register (+-) register, result in the common type
         Same /\ Seen /\ Ev.scale = Common(s[Ev.i], s[Ev.j]) /\ Ev.v1 = (IF Ev.neg THEN Val(Ev.i) - Val(Ev.j) ELSE Val(Ev.i) + Val(Ev.j)) /\ Ev.r * Ev.scale = Ev.v1
    [] Ev.op = "same" -> Same /\ Seen /\ Ev.scale = s[Ev.i] /\ (CASE Ev.f = "mul" -> Ev.r = c[Ev.i] * Ev.n
                                    [] Ev.f = "div" -> IsQuot(Ev.r, c[Ev.i], Ev.n)
                                    [] Ev.f = "plus" -> Ev.r = c[Ev.i] + Ev.n
                                    [] Ev.f = "minus" -> Ev.r = c[Ev.i] - Ev.n
                                    [] Ev.f = "call" -> Ev.r = Ev.n)
    [] Ev.op = "quot" -> Same /\ Seen /\ IsQuot(Ev.r, Val(Ev.i), Val(Ev.j))
    [] Ev.op = "cmp" -> Same /\ Seen /\ LET a == Val(Ev.i) b == Val(Ev.j) IN Ev.r = <<a < b, a <= b, a = b, a >= b, a > b, a # b>>
    [] Ev.op = "print" -> Same /\ Seen /\ Ev.r = Val(Ev.i) /\ Ev.label = label
    [] Ev.op = "free" -> Same /\ Ev.up = Up(Ev.n, Ev.s) /\ Ev.down = Down(Ev.n, Ev.s)
    [] Ev.op = "big" -> Same /\ BigOK
    [] OTHER -> FALSE /\ Same
Init == TInit /\ c = <<>> /\ s = <<>> /\ label = <<>>
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED scVars)
Spec == Init /\ [][Next]_<<tid, l, c, s, label>>
=============================================================================
