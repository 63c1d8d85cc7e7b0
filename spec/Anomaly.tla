------------------------------- MODULE Anomaly -------------------------------
(* The three anomalies of a body on a Kepler orbit: true (T), eccentric (E), mean *)
(* (M). The body is where the eccentric anomaly is j/8; the eccentricity is k/8.   *)
(* cE and sE are cosine and sine of the eccentric anomaly, hyperbolic ones on an   *)
(* open orbit, S to the unit; on a parabola the eccentric anomaly is tan(T/2).       *)
EXTENDS Integers
S == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
MulDiv(s, X, D) == s * (X \div D) + (s * (X % D)) \div D
Ellipse(k) == k < 8
Hyperbola(k) == k > 8
(* eight times the mean anomaly in units of U, 10 S to the unit, from the sine at that scale; far out on an open *)
(* orbit U is large *)
Mean8(k, j, s, U) == IF Ellipse(k) THEN 10 * S * j - k * s ELSE IF Hyperbola(k) THEN k * s - (10 * S * j) \div U ELSE (10 * S * j) \div U + MulDiv(10 * S, j * j * j, 192 * U)
(* the cosine c of the true anomaly *)
IsTrueCos(c, k, j, cE) ==
   IF Ellipse(k) THEN Near(c * (8 * S - k * cE), S * (8 * cE - k * S), 20 * S)
   ELSE IF Hyperbola(k) THEN Near(c * (k * cE - 8 * S), S * (k * S - 8 * cE), 8 * S + (k * cE - 8 * S))
   ELSE Near(c * (64 + j * j), S * (64 - j * j), 64 + j * j)
(* on the same side of the line of apsides and in the same turn; t, the anomaly itself, 10 S to the unit *)
SameTurn(t, s, k, j, sE) == /\ LET side == IF Ellipse(k) THEN sE ELSE 2 * j IN (Abs(s) > 1 /\ Abs(side) > 1) => (s > 0 <=> side > 0)
                            /\ IF Ellipse(k) THEN Near(t, 1250 * j, 31416) ELSE Abs(t) <= 31416
=============================================================================
