----------------------------- MODULE AnomalyMC -----------------------------
(* (1) The identities between the anomalies put the body at the same place whichever is used:      *)
(* at distance p/(1 + e cos T), coordinates a(cos E - e), b sin E. Rational points: a hundred-and-   *)
(* eighty-fold lattice. (2) Bisection finds the root of an increasing function when, and only when,   *)
(* the root is inside the bracket; Kepler's equation has it within e of the mean anomaly.             *)
EXTENDS Integers, TLC
CONSTANTS Bracket, Range
(*------ a pair is cosine and sine; ell: over 5, hyp: over 12 ------*)
Ell == {<<5, 0>>, <<3, 4>>, <<4, 3>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-3, -4>>, <<-4, -3>>, <<0, -5>>, <<3, -4>>, <<4, -3>>}
(* eccentricity e/5 and sqrt(1 - e^2) = f/5 *)
EllE == {<<0, 5>>, <<3, 4>>, <<4, 3>>}
(* cosh, sinh over 12: 5/3,4/3; 5/4,3/4; 13/12,5/12 *)
Hyp == {<<12, 0>>, <<20, 16>>, <<15, 9>>, <<13, 5>>, <<20, -16>>, <<15, -9>>, <<13, -5>>}
(* eccentricity e/12, sqrt(e^2 - 1) = f/12 *)
HypE == {<<20, 16>>, <<15, 9>>, <<13, 5>>}
VARIABLES ph, ang, ecc, lo, hi, root
vars == <<ph, ang, ecc, lo, hi, root>>
Init == \/ ph = "ell" /\ ang \in Ell /\ ecc \in EllE /\ lo = 0 /\ hi = 0 /\ root = 0
        \/ ph = "hyp" /\ ang \in Hyp /\ ecc \in HypE /\ lo = 0 /\ hi = 0 /\ root = 0
        \/ ph = "find" /\ ang = <<0, 0>> /\ ecc = <<0, 0>> /\ root \in -Range..Range /\ lo = -Bracket /\ hi = Bracket
(* f(x) = x - root - 1/2 on integers, halving as the code does; ends at neighbours *)
F(x) == 2 * (x - root) - 1
Halve == /\ ph = "find" /\ hi - lo > 1
         /\ LET mid == (hi + lo) \div 2 IN IF F(mid) * F(hi) > 0 THEN hi' = mid /\ lo' = lo ELSE lo' = mid /\ hi' = hi
         /\ UNCHANGED <<ph, ang, ecc, root>>
Spec == Init /\ [][Halve]_vars /\ WF_vars(Halve)
(* with r = 25 - e cE (over 25): cos T = 5(cE - e)/r..., sin T = f sE / r *)
SameEll == ph = "ell" => LET cE == ang[1] sE == ang[2] e == ecc[1] f == ecc[2] r == 25 - e * cE x == 5 * (cE - e) y == f * sE IN
   /\ x * x + y * y = r * r                                          \* on the unit circle
   /\ 5 * r + e * x = 5 * f * f                                      \* r (1 + e cos T) = p
SameHyp == ph = "hyp" => LET cE == ang[1] sE == ang[2] e == ecc[1] f == ecc[2] r == e * cE - 144 x == 12 * (e - cE) y == f * sE IN
   /\ x * x + y * y = r * r /\ 12 * r + e * x = 12 * f * f
Found == (ph = "find" /\ hi - lo <= 1) => (lo = root /\ hi = root + 1)
Ends == <>(ph # "find" \/ hi - lo <= 1)
=============================================================================
