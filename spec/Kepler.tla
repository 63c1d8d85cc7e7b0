------------------------------- MODULE Kepler -------------------------------
(* Two bodies on a Kepler orbit: where the elements put them, and which elements  *)
(* describe given coordinates. G = 1, u is the sum of the masses.                   *)
(* An angle is its cosine and sine, A to the unit, e is k/4, the semi-latus rectum p  *)
(* and w are integers with u = p w^2. The position is at the angle om + nu from the node. *)
EXTENDS Integers, Sequences
CONSTANT A
S == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sq(a) == Dot(a, a)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
L1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
(* floor(s X / D) without forming s X *)
MulDiv(s, X, D) == s * (X \div D) + (s * (X % D)) \div D
Million(X, D) == LET q == S * (X % D) IN S * S * (X \div D) + S * (q \div D) + (S * (q % D)) \div D
IsRoot(r, n) == r >= 0 /\ Abs(r * r - n) <= r + 1
(* n is s times a/b to the nearest unit, give or take tol *)
IsRatio(n, s, a, b, tol) == IF b < 0 THEN Abs(n - MulDiv(s, -a, -b)) <= tol ELSE Abs(n - MulDiv(s, a, b)) <= tol
(*--------------------------- elements to coordinates --------------------------*)
Plus(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>       \* A^2 to the unit
(* the vector x N + y M, N towards the node, M ahead of it in the plane of the orbit; A^2 to the unit of x and y *)
Frame(x, y, el) == <<A * x * el.O[1] - y * el.O[2] * el.i[1], A * x * el.O[2] + y * el.O[1] * el.i[1], A * y * el.i[2]>>
Reach(el) == 4 * A + el.k * el.nu[1]
(* r = 4 A p / Reach, position = r PosN / A^4, velocity = w VelN / (4 A^4) *)
PosN(el) == LET s == Plus(el.om, el.nu) IN Frame(s[1], s[2], el)
VelN(el) == LET s == Plus(el.om, el.nu) IN Frame(-(4 * s[2] + A * el.k * el.om[2]), 4 * s[1] + A * el.k * el.om[1], el)
(* at A = 5, S to the unit: 1000 4 5 / 625 = 32, 1000 / (4 625) = 2 / 5 *)
IsPos(x, el, tol) == \A j \in 1..3 : Abs(x[j] * Reach(el) - 32 * el.p * PosN(el)[j]) <= tol * Reach(el)
IsVel(v, el, tol) == \A j \in 1..3 : Abs(5 * v[j] - 2 * el.w * VelN(el)[j]) <= 5 * tol
(*--------------------------- coordinates to elements --------------------------*)
(* orientation from cosines and sines scaled by S: normal, and direction at angle t from the node *)
Normal(c) == <<(c.sO * c.si) \div S, -((c.cO * c.si) \div S), c.ci>>
Toward(c, ct, st) == LET a == (st * c.ci) \div S IN <<(ct * c.cO - a * c.sO) \div S, (ct * c.sO + a * c.cO) \div S, (st * c.si) \div S>>
SumC(c) == (c.co * c.cn - c.so * c.sn) \div S
SumS(c) == (c.co * c.sn + c.so * c.cn) \div S
(* a is along b, a of length S, up to rounding *)
Along(a, b, tol) == Dot(a, b) > 0 /\ \A j \in 1..3 : Abs(Cross(a, b)[j]) <= tol * L1(b)
(* r u times the eccentricity vector *)
Ecc(r, u, dr, dv) == Sub(Mul(r * Sq(dv) - u, dr), Mul(r * Dot(dr, dv), dv))
(* r times twice the energy *)
Energy2(r, u, dv) == r * Sq(dv) - 2 * u
Oriented(c, r, u, dr, dv, tol) ==
   /\ c.si >= 0
   /\ Along(Normal(c), Cross(dr, dv), tol) /\ Along(Toward(c, SumC(c), SumS(c)), dr, tol)
   /\ LET E == Ecc(r, u, dr, dv) IN E # <<0, 0, 0>> => Along(Toward(c, c.co, c.so), E, tol)
Shaped(c, r, u, dr, dv) ==
   LET l2 == Sq(Cross(dr, dv)) h == Energy2(r, u, dv) IN
   /\ IsRoot(c.e, S * S + Million(l2 * h, u * u * r)) /\ Abs(c.pu - S * l2) <= 1
   /\ (h < 0 => c.ty = "ellipse") /\ (h > 0 => c.ty = "hyperbola") /\ c.ty # "none"
=============================================================================
