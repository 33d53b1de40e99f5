----------------------------- MODULE TextTrace -----------------------------
(* Recorded uses of TextView against TextView.tla and TextNumber.tla.                                               *)
EXTENDS VTTrace, TextView, TextNumber
VARIABLES buf, v
vars == <<tid, l, buf, v>>
Init == TInit /\ buf = <<>> /\ v = Nil
B2I(x) == IF x THEN 1 ELSE 0
Same == UNCHANGED <<buf, v>>
Is(r) == /\ v' = r[1] /\ UNCHANGED buf /\ Ev.v = r[1] /\ Ev.r = r[2]
T == Txt(buf, v)
Sel == [k |-> Ev.k, cs |-> Ev.cs]
CStr(s) == LET k == First(s, [k |-> "c", cs |-> <<0>>]) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
Rep(c, n) == [i \in 1..n |-> c]
AllAre(q, x) == \A i \in 1..Len(q) : q[i] = x

Observe ==
  /\ Ev.f = First(T, [k |-> "c", cs |-> <<Ev.c>>]) - 1
  /\ Ev.l = Last(T, [k |-> "c", cs |-> <<Ev.c>>]) - 1
  /\ Ev.d = (IF T = <<>> THEN 0 ELSE T[1])
  /\ Ev.not = (T = <<>>) /\ Ev.is = (T # <<>>) /\ Ev.e = (T = <<>>) /\ Ev.sz = Len(T) /\ Ev.end = Len(T)
Made == LET s == Ev.s
            a == [i \in 1..3 |-> IF i <= Len(s) THEN s[i] ELSE 0]
        IN /\ AllAre(Ev.c, CStr(s)) /\ AllAre(Ev.a, IF a[3] = 0 THEN SubSeq(a, 1, 2) ELSE a) /\ AllAre(Ev.w, s) /\ Ev.z = 0 /\ Ev.v = v

Compared ==
  LET a == Ev.a
      b == Ev.b
      x == Cmp(a, b)
      y == CaseCmp(a, b)
      z == CStr(b)
      Sw(p) == <<B2I(IsPrefix(p, a)), B2I(IsPrefix(Fold(p), Fold(a))), B2I(IsSuffix(p, a)), B2I(IsSuffix(Fold(p), Fold(a)))>>
  IN /\ AllAre(Ev.cs, x) /\ AllAre(Ev.ci, y)
     /\ Ev.rel = <<B2I(x = 0), B2I(x # 0), B2I(x < 0), B2I(x <= 0), B2I(x > 0), B2I(x >= 0), B2I(x < 0), B2I(y < 0), B2I(y = 0)>>
     /\ Ev.hash /\ Ev.mcp /\ Ev.sw = Sw(b) /\ Ev.swz = Sw(z) /\ Ev.swc = Sw(<<Ev.c>>)
Xformed == /\ AllAre(Ev.x, [i \in 1..Len(Ev.s) |-> (Ev.s[i] + 1) % 256]) /\ AllAre(Ev.y, Ev.s)
           /\ Ev.e = <<B2I(Ev.s = <<>>), B2I(Ev.s = <<>>), B2I(Ev.s = <<>>), 1, 1>>
Streamed == LET n == IF Ev.w > Len(Ev.s) THEN Ev.w - Len(Ev.s) ELSE 0
                p == Rep(Ev.fill, n)
            IN Ev.o = <<91>> \o (IF Ev.left THEN Ev.s \o p ELSE p \o Ev.s) \o <<93>>
Sorted(m) == \A i \in 1..(Len(m) - 1) : m[i] < m[i + 1]

Step ==
  CASE Ev.op = "reset"   -> buf' = Ev.buf /\ v' = Mk(0, Len(Ev.buf))
    [] Ev.op = "n"       -> Is(ByN(Ev.m, v, Ev.n))
    [] Ev.op = "k"       -> Is(ByK(Ev.m, v, T, Sel))
    [] Ev.op = "pinc"    -> Is(<<DropP(v, 1), v>>)
    [] Ev.op = "clear"   -> Is(<<Nil, Nil>>)
    [] Ev.op = "substr"  -> Is(Substr(v, Ev.p, Ev.n))
    [] Ev.op = "obs"     -> Observe /\ Is(<<v, v>>)
    [] Ev.op = "assign"  -> Is(<<Mk(Ev.lo, Ev.hi), Mk(Ev.lo, Ev.hi)>>)
    [] Ev.op = "make"    -> Made /\ Same
    [] Ev.op = "table"   -> Same /\ Ev.t = [i \in 1..256 |-> DigitOf(i - 1)]
    [] Ev.op = "int"     -> Same /\ IntOk(Ev)
    [] Ev.op = "radix"   -> Same /\ RadixOk(Ev)
    [] Ev.op = "float"   -> Same /\ FloatOk(Ev)
    [] Ev.op = "cmp"     -> Same /\ Compared
    [] Ev.op = "charset" -> Same /\ Sorted(Ev.m) /\ Elems(Ev.m) = Elems(Ev.s)
    [] Ev.op = "xform"   -> Same /\ Xformed
    [] Ev.op = "stream"  -> Same /\ Streamed
    [] OTHER -> FALSE
Next == (Advance /\ Step) \/ (AtEnd /\ UNCHANGED <<buf, v>>)
Spec == Init /\ [][Next]_vars
=============================================================================
