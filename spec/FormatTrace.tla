---------------------------- MODULE FormatTrace ----------------------------
EXTENDS VTTrace, BWF
vars == <<tid, l>>
Init == TInit
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* decimal digits in the text, and the text of a floating point value: T / 10^p is within (1 + 2^-tol) / 2 units
RECURSIVE DigitsIn(_, _)
DigitsIn(t, i) == IF i > Len(t) THEN <<>> ELSE IF Digit(t[i]) THEN <<t[i] - 48>> \o DigitsIn(t, i + 1) ELSE DigitsIn(t, i + 1)
Canon(t) == Len(t) > 0 /\ (Len(t) = 1 \/ t[1] # 48) /\ \A i \in 1..Len(t) : Digit(t[i])
FloatOk ==
  LET t == IF Ev.neg THEN Tail(Ev.out) ELSE Ev.out
      m == NLimbs(Ev.m)
      p == IF Ev.p < 0 THEN 2 ELSE Ev.p
      dot == Find(t, 46, 1)
      k == -Ev.e
  IN /\ Ev.neg => At(Ev.out, 1) = 45
     /\ IF Ev.e >= 0 THEN t = Dec(NMul2(m, Ev.e))
        ELSE /\ dot = Len(t) - p /\ Canon(SubSeq(t, 1, dot - 1)) /\ \A i \in dot + 1..Len(t) : Digit(t[i])
             /\ LET T == NDec(DigitsIn(t, 1))
                    diff == NDiff(NMul2(T, k), NMul10(m, p))                 \* in units of 2^-k / 10^p
                IN IF p <= 9 THEN NCmp(NMulAdd(diff, 2048, 0), NMulAdd(NMul2(<<1>>, k), 1025, 0)) <= 0
                   ELSE IF p <= 15 THEN NCmp(NMulAdd(diff, 8, 0), NMulAdd(NMul2(<<1>>, k), 5, 0)) <= 0
                   ELSE NCmp(diff, NMul10(NMul2(<<1>>, k), p - 15)) <= 0
\* a format with captured widths: $ takes an argument, * takes one as the width of the next field
RECURSIVE Stars(_, _, _, _)
Stars(f, i, next, wd) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] \notin {36, 42} THEN <<f[i]>> \o Stars(f, i + 1, next, wd)
  ELSE IF next >= 3 THEN LET t == BadIndex(next, 3) IN (IF f[i] = 36 /\ wd >= 0 THEN Rep(32, wd - Len(t)) ELSE <<>>) \o t \o Stars(f, i + 1, next + 1, IF f[i] = 36 THEN -1 ELSE wd)
  ELSE IF f[i] = 42 THEN Stars(f, i + 1, next + 1, IF Ev.a[next + 1] < -1 THEN -1 ELSE Ev.a[next + 1])
  ELSE LET t == DecI(Ev.a[next + 1]) IN (IF wd >= 0 THEN Rep(32, wd - Len(t)) ELSE <<>>) \o t \o Stars(f, i + 1, next + 1, -1)
UpperTs == {66, 80, 83, 88}
CaptureOk ==
  LET full == Stars(Ev.fmt, 1, 0, -1)
      c == Ev.c  is == Parse(Ev.lf)
      B(b) == IF b THEN 1 ELSE 0
  IN /\ Ev.out = Upto(full, Ev.cap) /\ Ev.ext = Len(full) /\ Ev.thr
     /\ Ev.lit = (\A i \in 1..Len(is) : is[i][1] = "lit") /\ Ev.lit0 /\ (\A i \in 1..2 : (Ev.ks[i] > 0) = (Len(is) > 0)) /\ (Ev.lit => Ev.ks[1] = Ev.ks[3]) /\ Ev.ks[1] = Ev.ks[2]
     /\ Ev.cc = <<B(c \in TypeCs), B(c \in UpperTs), B(c \in NumCs), B(c \in UpperTs), B(c \in NumCs), B(c \in {80, 112})>>
     /\ \E i \in 1..Len(Ev.when) : Ev.when[i] = Ev.now
Step ==
  CASE Ev.op = "print" ->
         LET full == Ev.pre \o Printed(Ev.fmt, Ev.args, Ev.names)
         IN /\ Ev.thr = Malformed(Ev.fmt)
            /\ IF Ev.thr THEN (IF Ev.str THEN TRUE ELSE IsPrefix(Ev.out, full))
               ELSE IF Ev.str THEN Ev.out = full /\ ~Ev.err
               ELSE Ev.out = Upto(full, Ev.cap) /\ Ev.ext = Len(full) /\ Ev.err = (Len(full) > Ev.cap)
    [] Ev.op = "direct" ->
         LET q == ParseSpec(Ev.st)
             t == Render(IF q.align = 0 THEN [q EXCEPT !.min = 0] ELSE q, Ev.a)   \* without an alignment the field is filled by print
         IN Ev.out = Upto(t, Ev.cap) /\ Ev.ext = Len(t)
    [] Ev.op = "float" -> FloatOk
    [] Ev.op = "capture" -> CaptureOk
    [] OTHER -> FALSE
Next == (Advance /\ Step) \/ AtEnd
Spec == Init /\ [][Next]_vars
=============================================================================
