------------------------------ MODULE RandomMC ------------------------------
(* (1) A parameter draws until the value is allowed: over all scripts, what it returns is allowed,   *)
(* nothing allowed was skipped, and every allowed value is returned by equally many scripts - cutting *)
(* a distribution keeps its shape. (2) Points uniform over a disc have a uniform squared distance.   *)
(* (3) The tables: the density of the normal distribution satisfies f(x+h) f(x-h) = f(x)^2 e^(-h^2),  *)
(* Simpson's rule leads from it to Phi, and integration by parts from Phi to the length in space.     *)
EXTENDS Random, FiniteSets, TLC
CONSTANTS V, L
VARIABLES s, k, lo, hi, got
vars == <<s, k, lo, hi, got>>
Values == 0..V
Scripts == [1..L -> Values]
Limits == {<<a, b>> \in (Values \cup {None}) \X (Values \cup {None}) : a = None \/ b = None \/ a <= b}
Init == s \in Scripts /\ k = 1 /\ got = <<>> /\ \E m \in Limits : lo = m[1] /\ hi = m[2]
Reject == k <= L /\ ~Allowed(lo, hi, s[k]) /\ k' = k + 1 /\ UNCHANGED <<s, lo, hi, got>>
Accept == k <= L /\ Allowed(lo, hi, s[k]) /\ k' = k + 1 /\ got' = Append(got, k) /\ UNCHANGED <<s, lo, hi>>
Spec == Init /\ [][Reject \/ Accept]_vars
InLimits == \A i \in 1..Len(got) : Allowed(lo, hi, s[got[i]])
(* the machine and the operator used for traces are the same thing *)
Next1(i) == First(s, IF i = 1 THEN 1 ELSE got[i-1] + 1, lo, hi)
InOrder == \A i \in 1..Len(got) : got[i] = Next1(i)
(*------ constant facts ------*)
Returned(m, v) == Cardinality({t \in Scripts : LET f == First(t, 1, m[1], m[2]) IN f > 0 /\ t[f] = v})
Even == \A m \in Limits : \A v, w \in {x \in Values : Allowed(m[1], m[2], x)} : Returned(m, v) = Returned(m, w)
(* lattice points of a disc of squared radius q *)
Points(q) == Cardinality({<<x, y>> \in (-40..40) \X (-40..40) : x * x + y * y <= q})
Disc == \A j \in 1..8 : Abs(Points(200 * j) * 8 - j * Points(1600)) <= 150
Sym == \A j \in -20..20 : Phi(j) + Phi(-j) = Mega
Rising == \A j \in -19..20 : Phi(j) >= Phi(j-1) /\ (j > 0 => Phi(j) - Phi(j-1) <= Phi(j-1) - Phi(j-2) \/ j = 1)
(* density in the middle of a quarter from differences: F' = -x F, so differences fall off like it *)
D(j) == Phi(j + 1) - Phi(j)
(* D(j+1) D(j-1) / D(j)^2 is exp(-1/16) for the density itself; for its integral over a quarter the *)
(* ratio differs from that by less than one part in a hundred: e^(-1/16) = 0.93941                   *)
LogConcave == \A j \in -7..6 : LET a == D(j + 1) \div 10 b == D(j) \div 10 c == D(j - 1) \div 10
                                  q == (a * c) \div ((b * b) \div 10000) IN q \in 9350..9440
(* length in space: P(r <= x) = 2 (Phi(x) - 1/2) - 2 x f(x), with f from the slope of Phi *)
Slope(j) == (8 * (Phi(j + 1) - Phi(j - 1)) - (Phi(j + 2) - Phi(j - 2))) \div 12       \* quarter times density
Length == \A j \in 1..18 : Abs(Chi(j) - (2 * (Phi(j) - 500000) - 2 * j * Slope(j))) <= 300
(* laws of the cumulative functions *)
Ranges == /\ \A lo1 \in 1..4, hi1 \in 1..5, n \in -5..6 : lo1 < hi1 /\ n # 0 =>
              /\ PowerLaw(n, lo1, hi1, lo1) = 0 /\ PowerLaw(n, lo1, hi1, hi1) = Mega
              /\ \A r \in lo1..(hi1 - 1) : PowerLaw(n, lo1, hi1, r) < PowerLaw(n, lo1, hi1, r + 1)
          /\ \A r \in 1..5 : PowerLaw(2, 1, 5, r) = Uniform(1, 25, r * r)         \* density x^0
          /\ \A r \in {1, 2, 4} : PowerLaw(0, 1, 4, r) = Logarithmic(1, 16, r * r)
ASSUME Even
ASSUME Disc
ASSUME Sym
ASSUME Rising
ASSUME LogConcave
ASSUME Length
ASSUME Ranges
=============================================================================
