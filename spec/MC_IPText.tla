------------------------------ MODULE MC_IPText ------------------------------
(* Every address text that is printed parses back to the same address, range, network and service.            *)
EXTENDS IPText, TLC
CONSTANTS G, O, W, Ports
VARIABLES p, n     \* p: the octets / groups chosen so far
MCInit == p = <<>> /\ n \in {2, 8}
Units == IF n = 2 THEN 4 ELSE 8
MCNext == Len(p) < Units /\ n' = n /\ \E x \in (IF n = 2 THEN O ELSE G) : p' = Append(p, x)
Spec == MCInit /\ [][MCNext]_<<p, n>>
Done == Len(p) = Units
a == IF n = 8 THEN p ELSE <<p[1] * 256 + p[2], p[3] * 256 + p[4]>>
RoundTrip == Done => /\ Parse(n, Canon(a)) = a /\ ParseAny(Canon(a)) = a /\ (n = 8 => Parse(n, Full(a)) = a) /\ Parse(10 - n, Canon(a)) = NONE
UpCase == (Done /\ n = 8) => Parse6(Canon6(a, TRUE)) = a /\ Parse6(Full6(a, TRUE)) = a
Bracketed == Done => Parse(n, <<32, LBR>> \o Canon(a) \o <<RBR, 10>>) = a
Ranges == Done => \A w \in {x \in W : x <= 16 * n} : LET lo == L!NetMin(a, w)  hi == L!NetMax(a, w) IN
            /\ ParseRange(n, RangeText(lo, hi)) = <<lo, hi>>
            /\ ParseRange(n, CompactText(lo, hi)) = <<lo, hi>>
            /\ ParseNet(n, Canon(a) \o <<SLASH>> \o Dec(w)) = <<lo, w>>
            /\ ParseNet(n, Canon(a) \o <<SLASH>> \o Canon(L!NetMin(L!Ones(n), w))) = <<lo, w>>
Services == Done => \A q \in Ports : ParseSrv(n, SrvText(a, q)) = <<a, q>> /\ ParseSrv(0, SrvText(a, q)) = <<a, q>> /\ ParseSrv(10 - n, SrvText(a, q)) = <<>>
=============================================================================
