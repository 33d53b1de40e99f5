------------------------------- MODULE IPTrace -------------------------------
(* Executions of the address, mask, range, network and service classes, against Limbs (numbers) and IPText (text).
   The service and end point are stateful: sv and ep are <<address, port>>, address <<>> if not valid. sco is the
   rest of the end point if it is an IPv6 one: <<flow, scope>>.                                                   *)
EXTENDS VTTrace, FiniteSets
T == INSTANCE IPText
L == INSTANCE Limbs WITH LB <- 16
VARIABLES sv, ep, sco
vars == <<tid, l, sv, ep, sco>>
same == UNCHANGED <<sv, ep, sco>>
I(b) == IF b THEN 1 ELSE 0
B(i) == i # 0
n(a) == Len(a)
\* all elements of a sequence are v
All(s, v) == \A i \in 1..Len(s) : s[i] = v

(* --- order and arithmetic --- *)
\* invalid < IPv4 < IPv6
CmpA(x, y) == IF n(x) < n(y) THEN -1 ELSE IF n(x) > n(y) THEN 1 ELSE L!Cmp(x, y)
Sign(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0
Six(c) == <<I(c < 0), I(c <= 0), I(c > 0), I(c >= 0), I(c = 0), I(c # 0)>>
Seven(s, c) == SubSeq(s, 1, 6) = Six(c) /\ Sign(s[7]) = c
CmpOp == LET c == CmpA(Ev.x, Ev.y) IN
  /\ Seven(Ev.g, c) /\ (Ev.t # <<>> => Seven(Ev.t, c))
  /\ All(Ev.q, I(c = 0))
  /\ Ev.same = (n(Ev.x) = n(Ev.y) /\ Ev.x # <<>>)
  /\ (c = 0 => Ev.h)
StepOp == Ev.inc = L!Inc(Ev.x) /\ Ev.dec = L!Dec(Ev.x)
MaskOp == LET a == L!NetMin(Ev.x, Ev.w)  o == L!NetMax(Ev.x, Ev.w) IN
  Ev.ga = a /\ Ev.gb = a /\ Ev.ta = a /\ Ev.go = o /\ Ev.gc = o /\ Ev.to = o
Min2(a, b) == IF a < b THEN a ELSE b
IPMaskOp ==
  /\ Ev.as4 = L!NetMin(L!Ones(2), Min2(Ev.w, 32)) /\ Ev.as6 = L!NetMin(L!Ones(8), Ev.w)
  /\ Ev.width = Ev.w /\ Ev.valid /\ ~Ev.cleared /\ ~Ev.def
  /\ Ev.wide = Ev.w - Ev.n /\ Ev.narrow = Ev.w + Ev.n
  /\ Ev.c = <<I(Ev.w = Ev.o), I(Ev.w # Ev.o), I(Ev.w < Ev.o)>>
MaskForOp == Ev.t = L!Signif(Ev.x) /\ Ev.g = Ev.t
BitsOp == Ev.and = L!And(Ev.x, Ev.y) /\ Ev.or = L!Or(Ev.x, Ev.y)
ShiftOp == Ev.shl = L!Shl(Ev.x, Ev.n) /\ Ev.shr = L!Shr(Ev.x, Ev.n)
Octs(a) == [i \in 1..(2 * n(a)) |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] \div 256 ELSE a[i \div 2] % 256]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
V4(a) == I(n(a) = 2)
V6(a) == I(n(a) = 8)
ConvOp ==
  /\ Ev.idx = Octs(Ev.x)
  /\ All(Ev.forms, Ev.x)
  /\ Ev.any = <<I(Ev.x = L!Zero(n(Ev.x))), 1, 1>>
  /\ Ev.v = <<1, 0, V4(Ev.x), V6(Ev.x), V4(Ev.x), V6(Ev.x), 0>>
  /\ All(Ev.nul, 0) /\ Ev.thr   \* no address, or one of another family, is not an IP address
  /\ IF n(Ev.x) = 2 THEN Ev.map = <<0, 0, 0, 0, 0, 65535>> \o Ev.x /\ Ev.mapped
     ELSE Ev.mapped = (SubSeq(Ev.x, 1, 6) = <<0, 0, 0, 0, 0, 65535>>) /\ Ev.ho = Rev(Octs(Ev.x)) /\ Ev.ho2
In(x, net, w) == L!NetMin(x, w) = net
Pre(n1, n2) == <<n1, n2>>
Pre6(h) == <<h>> \o L!Zero(7)
Loop(x)  == IF n(x) = 2 THEN In(x, Pre(32512, 0), 8) ELSE x = L!Zero(7) \o <<1>>
Multi(x) == IF n(x) = 2 THEN In(x, Pre(57344, 0), 4) ELSE In(x, Pre6(65280), 8)
Link(x)  == IF n(x) = 2 THEN In(x, Pre(43518, 0), 16) ELSE In(x, Pre6(65152), 10)
Priv(x)  == IF n(x) = 2 THEN In(x, Pre(2560, 0), 8) \/ In(x, Pre(25664, 0), 10) \/ In(x, Pre(44048, 0), 12) \/ In(x, Pre(49320, 0), 16)
            ELSE In(x, Pre6(64512), 7)
ClassOp == /\ All(Ev.c, <<I(Loop(Ev.x)), I(Multi(Ev.x)), I(Link(Ev.x)), I(Priv(Ev.x))>>)
           /\ All(Ev.a, I(Ev.x = L!Zero(n(Ev.x))))
           /\ All(Ev.none, 0)
           /\ (n(Ev.x) = 8 => All(Ev.eq6, I(Ev.x = L!Zero(7) \o <<1>>)))

(* --- text --- *)
LoadOp ==
  LET p4 == T!Parse4(Ev.t)  p6 == T!Parse6(Ev.t)  pa == T!ParseAny(Ev.t) IN
  /\ (~T!Free4(Ev.t)) => Ev.ok4 = (p4 # T!NONE) /\ Ev.v4 = IF p4 = T!NONE THEN L!Zero(2) ELSE p4
  /\ Ev.ok6 = (p6 # T!NONE) /\ Ev.v6 = IF p6 = T!NONE THEN L!Zero(8) ELSE p6
  /\ (~T!FreeAny(Ev.t)) => Ev.ok = (pa # T!NONE) /\ Ev.v = pa
  /\ Ev.ok = (Ev.v # <<>>) /\ Ev.c4 = Ev.v4 /\ Ev.c6 = Ev.v6 /\ Ev.c = Ev.v
FamName(a) == IF n(a) = 2 THEN <<105, 112, 118, 52>> ELSE IF n(a) = 8 THEN <<105, 112, 118, 54>> ELSE <<117, 110, 115, 112, 101, 99>>
HexT(a, up) == IF n(a) = 2 THEN T!Hex4(a, up) ELSE T!Canon6(a, up)
FullUp(a) == IF n(a) = 2 THEN T!Join([i \in 1..4 |-> T!Pad(T!Hex(T!Octets(a)[i], TRUE), 3, 48)], T!DOT) ELSE T!Full6(a, TRUE)
FillSp(a) == IF n(a) = 2 THEN T!Join([i \in 1..4 |-> T!Pad(T!Dec(T!Octets(a)[i]), 3, 32)], T!DOT) ELSE T!Join([i \in 1..8 |-> T!Pad(T!Hex(a[i], FALSE), 4, 32)], T!COLON)
PrintOp ==
  /\ All(Ev.d, T!Canon(Ev.x)) /\ All(Ev.full, T!Full(Ev.x)) /\ All(Ev.up, HexT(Ev.x, TRUE)) /\ All(Ev.hex, HexT(Ev.x, FALSE))
  /\ All(Ev.fullup, FullUp(Ev.x)) /\ All(Ev.sp, FillSp(Ev.x))
  /\ Ev.fn = FamName(Ev.x) /\ Ev.f = Ev.fn /\ Ev.f2 = Ev.fn
  /\ Ev.af = T!Canon(Ev.x) \o <<32>> \o Ev.fn /\ Ev.af2 = Ev.af
  /\ Ev.nf = (IF n(Ev.x) = 2 THEN <<50>> ELSE <<49, 48>>) /\ Ev.nf2 = Ev.nf
  /\ Ev.fu = <<117, 110, 105, 120>> /\ Ev.fx = <<117, 110, 107, 110, 111, 119, 110>> /\ Ev.fz = FamName(<<>>)
  /\ All(Ev.sp2, FillSp(Ev.x)) /\ Ev.sp5 = <<32, 32, 32, 32, 48>>
  /\ Ev.os = T!Canon(Ev.x) \o <<124>> \o T!Canon(Ev.x)

(* --- ranges and networks --- *)
\* any empty range is as good as another
RangeIs(r, e) == r = e \/ (r # <<>> /\ e # <<>> /\ ~L!Leq(r[1], r[2]) /\ ~L!Leq(e[1], e[2]))
IsEmpty(e) == e = <<>> \/ ~L!Leq(e[1], e[2])
HasColon(t) == T!Idx(t, T!COLON) # {}
InvalidText == <<42, 105, 110, 118, 97, 108, 105, 100, 42>>
RLoadOp ==
  LET t == Ev.t  r4 == T!ParseRange(2, t)  r6 == T!ParseRange(8, t)  rg == IF HasColon(t) THEN r6 ELSE r4
      n4 == T!ParseNet(2, t)  n6 == T!ParseNet(8, t)  ng == IF n6 # <<>> THEN n6 ELSE n4
      f4 == T!FreeRange(2, t)  f6 == T!FreeRange(8, t)  g4 == T!FreeNet(2, t)  g6 == T!FreeNet(8, t)
  IN
  /\ ~f4 => /\ Ev.o4 = (r4 # <<>>) /\ RangeIs(Ev.r4, r4) /\ Ev.e4 = IsEmpty(r4) /\ Ev.ce4 = IsEmpty(r4)
            /\ (~IsEmpty(r4) => Ev.c4 = r4)
  /\ ~f6 => /\ Ev.o6 = (r6 # <<>>) /\ RangeIs(Ev.r6, r6) /\ Ev.e6 = IsEmpty(r6) /\ Ev.ce6 = IsEmpty(r6)
            /\ (~IsEmpty(r6) => Ev.c6 = r6)
  /\ (~f4 /\ ~f6) => /\ Ev.o = (rg # <<>>) /\ RangeIs(Ev.r, rg) /\ Ev.e = IsEmpty(rg) /\ RangeIs(Ev.c, rg)
  /\ ~g4 => Ev.p4 = (n4 # <<>>) /\ Ev.n4 = n4 /\ Ev.ne4 = (n4 = <<>>)
  /\ ~g6 => Ev.p6 = (n6 # <<>>) /\ Ev.n6 = n6 /\ Ev.ne6 = (n6 = <<>>)
  /\ (~g4 /\ ~g6) => Ev.p = (ng # <<>>) /\ Ev.n = ng /\ Ev.ne = (ng = <<>>)
  /\ ~g4 => Ev.m4 = n4
  /\ ~g6 => Ev.m6 = n6
  /\ (~g4 /\ ~g6) => Ev.m = ng
  /\ Ev.mt = (IF Ev.m = <<>> THEN InvalidText ELSE T!Canon(Ev.m[1]) \o <<47>> \o T!Dec(Ev.m[2]))
MaskOf(lo, hi) == IF L!NetOf(lo, hi) >= 0 THEN L!NetOf(lo, hi) ELSE 255
Member(x, lo, hi) == n(x) = n(lo) /\ L!Leq(lo, x) /\ L!Leq(x, hi)
RangeOp ==
  LET lo == Ev.lo  hi == Ev.hi  e == ~L!Leq(lo, hi)  eo == ~L!Leq(Ev.o[1], Ev.o[2]) IN
  /\ All(Ev.pr, T!RangeText(lo, hi)) /\ All(Ev.co, T!CompactText(lo, hi)) /\ All(Ev.em, I(e))
  /\ All(Ev.nm, IF e THEN 255 ELSE MaskOf(lo, hi))
  /\ \A i \in 1..Len(Ev.has) : All(Ev.has[i][2], I(Member(Ev.has[i][1], lo, hi)))
  /\ (~e \/ ~eo) => All(Ev.q, I(Ev.o = <<lo, hi>>))
  /\ All(Ev.cl, 1) /\ All(Ev.xf, 0)
  /\ Ev.fam = <<V4(lo), V6(lo), V4(lo), V6(lo), V4(lo), V6(lo), V4(lo), V6(lo), V4(lo), V6(lo), 1, 1>>
  /\ (~e => All(Ev.mm, <<lo, hi>>))
  /\ (e => Ev.nets)
NetOp ==
  LET lo == L!NetMin(Ev.x, Ev.w)  hi == L!NetMax(Ev.x, Ev.w)
      c == I(Ev.w = Ev.w2 /\ lo = L!NetMin(Ev.y, Ev.w2))
  IN /\ All(Ev.rs, <<lo, hi>>) /\ All(Ev.ps, T!Canon(lo) \o <<47>> \o T!Dec(Ev.w))
     /\ All(Ev.q, c) /\ All(Ev.gq, c) /\ All(Ev.mix, c) /\ Ev.asg /\ Ev.gasg /\ Ev.cl /\ All(Ev.gcl, 1) /\ Ev.gw = Ev.w
     /\ Ev.fam = <<V4(lo), V6(lo), V4(lo), V6(lo)>> /\ Ev.none = InvalidText
NetsOp == LET c == L!Cover(Ev.lo, Ev.hi)
              k == IF Len(c) > 300 THEN SubSeq(c, 1, 300) ELSE c
          IN All(Ev.c, k) /\ \A i \in 1..Len(Ev.q) : Ev.q[i] = IF i \in {12, 13} THEN 0 ELSE 1

(* --- services --- *)
BAD == <<<<>>, 0>>
Sizes == Traces[tid].e[1].szs
SockSize(a) == IF n(a) = 2 THEN Sizes[2] ELSE IF n(a) = 8 THEN Sizes[3] ELSE Sizes[1]
\* the observed state is that of the specification, after the step
Observed ==
  /\ Ev.sa = sv'[1] /\ Ev.sp = sv'[2]
  /\ Ev.sx = <<I(sv'[1] # <<>>), V4(sv'[1]), V6(sv'[1]), V4(sv'[1]), V6(sv'[1]), sv'[2]>>
  /\ Ev.ea = ep'[1] /\ Ev.epo = ep'[2] /\ Ev.sc = sco'
  /\ LET a == ep'[1] IN
       /\ Ev.ex = <<I(a # <<>>), V4(a), V6(a), I(a # <<>> /\ a = L!Zero(n(a))), I(a # <<>> /\ Loop(a)), ep'[2], V4(a), V6(a), V4(a), V6(a), I(a # <<>>), ep'[2], ep'[2]>>
       /\ Ev.sz = <<SockSize(a), SockSize(a), 2 * n(a)>>
InitOp == same /\ Observed
\* text of a service
Tok(t0) ==
  LET t == T!LTrim(t0)  C == T!Idx(t, T!COLON)
      Port(a, r) == LET D == {i \in 1..Len(r) : ~(48 <= r[i] /\ r[i] <= 57)}
                        d == IF D = {} THEN Len(r) ELSE T!MinS(D) - 1
                    IN IF d = 0 THEN <<a, <<>>, <<T!COLON>> \o r>> ELSE <<a, SubSeq(r, 1, d), SubSeq(r, d + 1, Len(r))>>
  IN IF t = <<>> THEN <<<<>>, <<>>, <<>>>>
     ELSE IF t[1] = T!LBR
     THEN IF T!Idx(t, T!RBR) = {} THEN <<<<>>, <<>>, Tail(t)>>
          ELSE LET k == T!MinS(T!Idx(t, T!RBR))
                   a == SubSeq(t, 2, k - 1)
                   r == SubSeq(t, k + 1, Len(t))
               IN IF r # <<>> /\ r[1] = T!COLON THEN Port(a, Tail(r)) ELSE <<a, <<>>, r>>
     ELSE IF Cardinality(C) = 1 THEN LET k == T!MinS(C) IN Port(SubSeq(t, 1, k - 1), SubSeq(t, k + 1, Len(t)))
     ELSE <<t, <<>>, <<>>>>
\* a load which fails: the previous value or the cleared value
Kept(ok, p, a, q, was, zero) == IF ok THEN <<a, q>> = p ELSE <<a, q>> \in {was, zero}
Parts(a, v) == IF n(a) = 8 THEN v ELSE <<>>
SrvLoadOp ==
  LET t == Ev.t  k == Tok(t)
      q4 == T!ParseSrv(2, t)  q6 == T!ParseSrv(8, t)  q == T!ParseSrv(0, t)  qe == T!ParseSrv(0, T!Trim(t))
  IN
  /\ Ev.ta = k[1] /\ Ev.tp = k[2] /\ Ev.tr = k[3] /\ Ev.tk = (k[1] # <<>>) /\ Ev.tk2 = Ev.tk
  /\ ~T!FreeSrv(2, t) => Ev.o4 = (q4 # <<>>) /\ Kept(Ev.o4, q4, Ev.a4, Ev.p4, <<Ev.i4, Ev.j4>>, <<L!Zero(2), 0>>) /\ <<Ev.b4, Ev.q4>> = (IF q4 = <<>> THEN <<L!Zero(2), 0>> ELSE q4)
  /\ ~T!FreeSrv(8, t) => Ev.o6 = (q6 # <<>>) /\ Kept(Ev.o6, q6, Ev.a6, Ev.p6, <<Ev.i6, Ev.j6>>, <<L!Zero(8), 0>>) /\ <<Ev.b6, Ev.q6>> = (IF q6 = <<>> THEN <<L!Zero(8), 0>> ELSE q6)
  /\ sv' = <<Ev.sa, Ev.sp>> /\ ep' = <<Ev.ea, Ev.epo>> /\ sco' = Parts(Ev.ea, <<0, 0>>)
  /\ ~T!FreeSrv(0, t) =>
       /\ Ev.o = (q # <<>>) /\ Kept(Ev.o, q, Ev.sa, Ev.sp, sv, BAD) /\ Kept(Ev.o, q, Ev.ca, Ev.cp, BAD, BAD)
       /\ Ev.eo = (qe # <<>>) /\ ep' = (IF qe = <<>> THEN BAD ELSE qe) /\ <<Ev.cea, Ev.cep>> = ep'
  /\ Ev.eo = (Ev.ea # <<>>)
  /\ (~Ev.o) => sv' \in {sv, BAD}
  /\ Observed
SrvOp ==
  LET x == Ev.x  p == Ev.p IN
  /\ ep' = ep /\ sco' = sco
  /\ sv' = CASE Ev.how \in {0, 1} -> <<x, sv[2]>>
             [] Ev.how = 2 -> IF sv[1] = <<>> THEN sv ELSE <<sv[1], p>>
             [] OTHER -> <<x, p>>
  /\ Observed
EpOp ==
  LET x == Ev.x  p == Ev.p IN
  /\ sv' = sv
  /\ ep' = CASE Ev.how \in {0, 1} -> <<x, 0>>
             [] Ev.how \in {2, 5} -> <<x, p>>
             [] Ev.how \in {3, 4, 10} -> IF x = <<>> THEN BAD ELSE <<x, p>>
             [] Ev.how = 6 -> <<L!Zero(n(x)), 0>>
             [] Ev.how = 7 -> <<IF n(x) = 2 THEN <<32512, 1>> ELSE L!Zero(7) \o <<1>>, 0>>
             [] Ev.how = 8 -> BAD
             [] Ev.how = 9 -> IF ep[1] = <<>> THEN ep ELSE <<ep[1], p>>
  \* a socket address is copied in full, every other source has no such parts
  /\ sco' = Parts(ep'[1], CASE Ev.how \in {4, 5} -> Ev.xf [] Ev.how = 9 -> sco [] OTHER -> <<0, 0>>)
  /\ Ev.bks = sco' /\ Ev.cps = sco' /\ Ev.vis = Parts(ep'[1], <<0, 0>>) /\ Ev.vas = Parts(ep'[1], <<0, 0>>)
  /\ Ev.bk = ep'[1] /\ Ev.cpa = ep'[1] /\ Ev.cpp = ep'[2] /\ Ev.via = ep'[1] /\ Ev.vip = ep'[2] /\ Ev.vaa = ep'[1] /\ Ev.vap = 0
  /\ Observed
EpText(a, p, full) ==
  LET ad == IF full THEN T!Full(a) ELSE T!Canon(a)
      po == IF full THEN T!Pad(T!Dec(p), 5, 48) ELSE T!Dec(p)
  IN IF n(a) = 2 THEN ad \o <<58>> \o po ELSE <<91>> \o ad \o <<93, 58>> \o po
SPrintOp ==
  /\ same /\ Observed
  /\ All(Ev.s, IF sv[1] = <<>> THEN <<>> ELSE T!SrvText(sv[1], sv[2]))
  /\ ep[1] # <<>> =>
       /\ All(Ev.e, EpText(ep[1], ep[2], FALSE)) /\ Ev.eap = EpText(ep[1], ep[2], FALSE) /\ Ev.efull = EpText(ep[1], ep[2], TRUE)
       /\ Ev.ea_ = T!Canon(ep[1]) /\ Ev.ep_ = T!Dec(ep[2]) /\ Ev.efp = T!Pad(T!Dec(ep[2]), 5, 48) /\ Ev.epf = T!Dec(ep[2]) \o <<32>> \o FamName(ep[1])
  /\ Ev.ef = FamName(ep[1])
SCmpOp ==
  LET x == Ev.x  y == Ev.y
      d == n(x) = n(y)
      c == IF ~d THEN 0 ELSE IF L!Cmp(x, y) # 0 THEN L!Cmp(x, y) ELSE IF Ev.p < Ev.q THEN -1 ELSE IF Ev.p > Ev.q THEN 1 ELSE 0
  IN /\ (d => Ev.t = Six(c) /\ Ev.m1 = Six(c) /\ Ev.m2 = Six(-c))
     /\ (~d => /\ Ev.m1[5] = 0 /\ Ev.m1[6] = 1 /\ Ev.m2[5] = 0 /\ Ev.m2[6] = 1)
     /\ All(Ev.ad, I(x = y))
     /\ (d => Ev.ts = <<<<L!Zero(n(x)), 0, 0>>, <<x, Ev.p, Ev.p>>, <<y, Ev.p, Ev.p>>, <<y, Ev.q, Ev.q>>, <<x, Ev.p, Ev.p>>, <<y, Ev.q, Ev.q>>, <<y, Ev.q, Ev.q>>, <<x, 0, 0>>>>)
     /\ <<Ev.n4, Ev.n4p>> = (IF n(x) = 2 THEN <<x, Ev.p>> ELSE <<L!Zero(2), 0>>)
     /\ <<Ev.n6, Ev.n6p>> = (IF n(x) = 8 THEN <<x, Ev.p>> ELSE <<L!Zero(8), 0>>)

Init == TInit /\ sv = BAD /\ ep = BAD /\ sco = <<>>
Step ==
  CASE Ev.op = "cmp" -> same /\ CmpOp
    [] Ev.op = "step" -> same /\ StepOp
    [] Ev.op = "mask" -> same /\ MaskOp
    [] Ev.op = "ipmask" -> same /\ IPMaskOp
    [] Ev.op = "maskfor" -> same /\ MaskForOp
    [] Ev.op = "bits" -> same /\ BitsOp
    [] Ev.op = "shift" -> same /\ ShiftOp
    [] Ev.op = "conv" -> same /\ ConvOp
    [] Ev.op = "class" -> same /\ ClassOp
    [] Ev.op = "load" -> same /\ LoadOp
    [] Ev.op = "print" -> same /\ PrintOp
    [] Ev.op = "rload" -> same /\ RLoadOp
    [] Ev.op = "range" -> same /\ RangeOp
    [] Ev.op = "net" -> same /\ NetOp
    [] Ev.op = "nets" -> same /\ NetsOp
    [] Ev.op = "init" -> InitOp
    [] Ev.op = "srvload" -> SrvLoadOp
    [] Ev.op = "srv" -> SrvOp
    [] Ev.op = "ep" -> EpOp
    [] Ev.op = "sprint" -> SPrintOp
    [] Ev.op = "scmp" -> same /\ SCmpOp
    [] OTHER -> FALSE
Next == (Advance /\ Step) \/ (AtEnd /\ same)
Spec == Init /\ [][Next]_vars
=============================================================================
