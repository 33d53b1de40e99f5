------------------------------ MODULE MC_Scalar ------------------------------
(* Laws of rounding and conversion, for all small values and scales; and a machine of registers of fixed scales where
   every action is the assignment of a (rounded) sum, to show the value is kept whenever it can be. *)
EXTENDS Scalar, TLC
CONSTANTS MaxV, Scales
VARIABLES c, s                          \* count and scale of registers 1 and 2
vars == <<c, s>>
Val(i) == c[i] * s[i]
InRange(x) == Abs(x) <= MaxV
Init == s \in Scales \X Scales /\ c = <<0, 0>>
Assign(i, x) == InRange(x) /\ c' = [c EXCEPT ![i] = x] /\ UNCHANGED s
Next == \E i \in 1..2 : LET j == 3 - i IN
          \/ Assign(i, c[i] + 1) \/ Assign(i, c[i] - 1) \/ Assign(i, 3 * c[i])
          \/ Divides(s[i], s[j]) /\ Assign(i, Val(j) \div s[i])
          \/ \E d \in {"up", "down"} : Assign(i, Round(d, Val(j), s[i])) \/ Assign(i, c[i] + Round(d, Val(j), s[i]))
Spec == Init /\ [][Next]_vars
Laws(v, n) ==
  /\ Up(v, n) % n = 0 /\ Down(v, n) % n = 0
  /\ Up(v, n) >= v /\ Up(v, n) - v < n /\ Down(v, n) <= v /\ v - Down(v, n) < n
  /\ Down(v, n) = -Up(-v, n)
  /\ (v % n = 0) <=> (Up(v, n) = Down(v, n))
Inv == \A i \in 1..2 : LET j == 3 - i IN
         /\ Laws(Val(i), s[j])
         /\ Divides(s[j], s[i]) => Up(Val(i), s[j]) = Val(i)                       \* lossless
         /\ LET g == Common(s[1], s[2]) IN Divides(g, s[i]) /\ \A k \in 1..30 : Divides(k, s[1]) /\ Divides(k, s[2]) => k <= g
         /\ (c[j] # 0 => IsQuot(IF Sign(Val(i)) * Sign(Val(j)) >= 0 THEN Abs(Val(i)) \div Abs(Val(j)) ELSE -(Abs(Val(i)) \div Abs(Val(j))), Val(i), Val(j)))
=============================================================================
