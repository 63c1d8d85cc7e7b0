----------------------------- MODULE Scattering -----------------------------
(* Setting up a scattering: two clusters of bodies, far apart, approach on a hyperbola.             *)
(* Lengths and velocities are integers unless said otherwise, observed numbers are hundredths; a root *)
(* is checked through its square. G = 1.                                                            *)
EXTENDS Random
(* a/b with n decimal digits, one after the other; 0 <= a, 1 <= b <= 2*10^8 *)
Digits(a, b, n) ==
  LET d[i \in 0..n] == IF i = 0 THEN <<a \div b, a % b>> ELSE LET q == d[i-1] IN <<10 * q[1] + (10 * q[2]) \div b, (10 * q[2]) % b>>
  IN d[n][1]
Near(x, y, e) == Abs(x - y) <= e
(* v hundredths is the root of X tenthousandths *)
IsRoot(v, X) == v >= 0 /\ v <= 44000 /\ Near(v * v, X, v + 2)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sq(u) == u[1] * u[1] + u[2] * u[2] + u[3] * u[3]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
(*------ a cluster: sequence of bodies [m, r, x, v] ------*)
Mass(c) == SumTo([i \in 1..Len(c) |-> c[i].m], Len(c))
Momentum(c) == [k \in 1..3 |-> SumTo([i \in 1..Len(c) |-> c[i].m * c[i].v[k]], Len(c))]
Root(q) == CHOOSE d \in 0..40 : d * d = q
Dist(a, b) == Root(Sq(Minus(a.x, b.x)))
(* size: the largest distance, the radius of a single body *)
Size(c) == IF Len(c) = 1 THEN c[1].r ELSE LET D == {Dist(c[i], c[j]) : i, j \in 1..Len(c)} IN CHOOSE d \in D : \A e \in D : e <= d
(* 24 M times the energy in the frame of the centre of mass; distances divide 12 *)
Inner24M(c) ==
  LET M == Mass(c)
      kin == 12 * M * SumTo([i \in 1..Len(c) |-> c[i].m * Sq(c[i].v)], Len(c)) - 12 * Sq(Momentum(c))
      pot == SumTo([i \in 1..Len(c) |-> SumTo([j \in 1..Len(c) |-> IF j < i THEN (c[i].m * c[j].m * 24) \div Dist(c[i], c[j]) ELSE 0], Len(c))], Len(c))
  IN kin - M * pot
(*------ the velocity at which the total energy vanishes: v^2 = -2 (E1 + E2) / reduced mass; energies are e1/(24 m1), e2/(24 m2) ------*)
Critical2(m1, m2, e1, e2) == Digits(-((e1 * m2 + e2 * m1) * (m1 + m2)), 12 * m1 * m2 * m1 * m2, 4)
(*------ the impact parameter of closest approach rp (a fraction): b^2 = rp^2 + 2 M rp / v^2; v a fraction of halves ------*)
BMax2(M, v2, rp) == Digits(rp[1] * rp[1] * v2 * v2 + 8 * M * rp[1] * rp[2], rp[2] * rp[2] * v2 * v2, 4)
(* the distance of equal tides: the larger of (M1/(f M2))^(1/3) R2 and (M2/(f M1))^(1/3) R1, f = fn/fd; *)
(* k-fold, known to be a fraction a/4 for the larger one                                               *)
Larger(M1, M2, R1, R2) == IF M1 * M1 * R2 * R2 * R2 >= M2 * M2 * R1 * R1 * R1 THEN <<M1, M2, R2>> ELSE <<M2, M1, R1>>
Cube(p, q) == CHOOSE a \in 1..400 : a * a * a * q = 64 * p
Tidal(fn, fd, M1, M2, R1, R2) == LET g == Larger(M1, M2, R1, R2) IN <<Cube(g[1] * fd, g[2] * fn) * g[3], 4>>
Hard(m1, m2, m, s2) == Digits(4 * m1 * m2, m * s2 * s2, 2)
(*------ the incident orbit: what the body does where it starts, far away; place x, velocity v, angular momentum h = x X v and b in hundredths, w = v_inf in halves ------*)
(* mu = m1 + m2; start in hundredths; everything to the accuracy of the hundredths *)
Incident(mu, w, bm, start, x, v, h, b) ==
  LET n == Abs(v[1]) + Abs(v[2]) + Abs(v[3]) s == Abs(x[1]) + Abs(x[2]) + Abs(x[3])
      bw == (b * w) \div 2
      d == 2 + w
  IN /\ 0 <= b /\ b <= bm
     /\ Near(Sq(x), start * start, 2 * s + 4)
     /\ Dot(x, v) < 0                                      \* coming
     /\ Near(Sq(v), 2500 * w * w + Digits(2 * mu, start, 6), 2 * n + 8)        \* energy
     /\ Near(Sq(h), bw * bw, 2 * bw * d + d * d)          \* angular momentum
     /\ \A k \in 1..3 : Near(Cross(x, v)[k] \div 100, h[k], (s + n) \div 100 + 3)
=============================================================================
