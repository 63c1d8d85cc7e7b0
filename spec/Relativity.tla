----------------------------- MODULE Relativity -----------------------------
(* Velocity dependent pair forces, G = 1, exact in integers: for d = x_i - x_j *)
(* of integer length r the acceleration of body i caused by body j is          *)
(*   c^-2 PN1 / (2 r^5) + c^-4 PN2 / (8 r^7) + c^-5 PN25 / (15 r^6)            *)
(* (equations of motion in harmonic coordinates), and that of the other body   *)
(* is the same expression with the bodies exchanged.  Tides: the bulges raised *)
(* on either body pull along the line of centres, action equal to reaction.    *)
(* Drag by gas: proportional to the velocity below the speed of sound, to the  *)
(* inverse square of it above.  A star crossing a Keplerian disk of gas about  *)
(* body 1 loses (relative speed)^2 times the swept area times the density.     *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scl(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Lin(k, a, h, b) == Add(Scl(k, a), Scl(h, b))
Root(n) == CHOOSE r \in 0..60 : r * r = n
(* 1000 n / D, rounded *)
Milli(n, D) == 1000 * (n \div D) + (1000 * (n % D) + D \div 2) \div D
MilliV(n, D) == <<Milli(n[1], D), Milli(n[2], D), Milli(n[3], D)>>

(* mi, vi: the body accelerated; d = x_i - x_j *)
PN1(mi, mj, d, r, vi, vj) ==
  LET p == Dot(d, vi)  q == Dot(d, vj)
      S == -Dot(vi, vi) - 2 * Dot(vj, vj) + 4 * Dot(vi, vj)
  IN Scl(mj, Lin(2 * r * r * S + 3 * q * q + 2 * r * (5 * mi + 4 * mj), d, 2 * r * r * (4 * p - 3 * q), Sub(vi, vj)))
PN2(mi, mj, d, r, vi, vj) ==
  LET p == Dot(d, vi)  q == Dot(d, vj)
      a == Dot(vi, vi)  b == Dot(vj, vj)  h == Dot(vi, vj)
      r2 == r * r  r3 == r * r * r  r4 == r * r * r * r
      X == 8 * r4 * (-2 * b * b + 4 * b * h - 2 * h * h) + r2 * q * q * (12 * a + 36 * b - 48 * h) - 15 * q * q * q * q
           + r3 * mi * (-30 * a + 10 * b - 20 * h) + r * mi * (156 * p * p - 312 * p * q + 68 * q * q)
           + r3 * mj * (32 * b - 64 * h) + r * mj * (16 * p * p - 32 * p * q - 48 * q * q)
           - r2 * (114 * mi * mi + 72 * mj * mj + 276 * mi * mj)
      Y == 8 * r4 * (a * q + 4 * b * p - 5 * b * q - 4 * h * p + 4 * h * q) + r2 * (36 * q * q * q - 48 * p * q * q)
           + r3 * (mi * (110 * q - 126 * p) - 16 * mj * (p + q))
  IN Scl(mj, Lin(X, d, Y, Sub(vi, vj)))
PN25(mi, mj, d, r, vi, vj) ==
  LET w == Sub(vi, vj)  u == Dot(d, w)  ww == Dot(w, w)
  IN Scl(4 * mi * mj, Lin(u * (9 * ww * r - 18 * mi + 52 * mj), d, 3 * r * r * (2 * mi - 8 * mj - ww * r), w))
PairMilli(kind, bi, bj, d, r) ==
  CASE kind = "pn1"  -> MilliV(PN1(bi.m, bj.m, d, r, bi.v, bj.v), 2 * r * r * r * r * r)
    [] kind = "pn2"  -> MilliV(PN2(bi.m, bj.m, d, r, bi.v, bj.v), 8 * r * r * r * r * r * r * r)
    [] kind = "pn25" -> MilliV(PN25(bi.m, bj.m, d, r, bi.v, bj.v), 15 * r * r * r * r * r * r)
(* tides: 3 k R^5 m^2 (1 + 3 tau rdot / r) / r^7 between the bodies, k R tau of the deformed, m of the other; as force times r^10 *)
Five(x) == x * x * x * x * x
Bulge(bi, bj, d, r) == 3 * bi.k * Five(bi.R) * bj.m * bj.m * (r * r + 3 * bi.tau * Dot(d, Sub(bi.v, bj.v)))
TidePull(bi, bj, d, r) == Bulge(bi, bj, d, r) + Bulge(bj, bi, Scl(-1, d), r)
TideMilli(bi, bj, d, r) == MilliV(Scl(-TidePull(bi, bj, d, r), d), bi.m * Five(r) * Five(r))
(* gas at rest: c the coefficient, cs the speed of sound; 3 sqrt(pi/2) = 3.759942 *)
GasMilli(b) == LET u == Root(Dot(b.v, b.v))
               IN IF u < b.cs THEN Scl(-1000 * b.c * b.m, b.v)
                  ELSE LET k == b.c * b.m * b.cs * b.cs * b.cs
                       F(x) == (-x * k * 37599) \div (10 * u * u * u)
                  IN <<F(b.v[1]), F(b.v[2]), F(b.v[3])>>
(* disk: the star at d from the centre (in the plane, at the distance R, so that m1/R is a square), area pi rad^2, density m1/(2 pi R^3) *)
Whirl(m1, d, R) == LET s == Root(m1 \div R) IN <<-(s * d[2]) \div R, (s * d[1]) \div R, 0>>
Sweep(b1, b, d) == LET R == Root(Dot(d, d))  u == Sub(Sub(b.v, b1.v), Whirl(b1.m, d, R))
                   IN [n |-> Scl(-b.R * b.R * b1.m * Root(Dot(u, u)), u), D |-> 2 * R * R * R]       \* force on the star: n/D
(* above the plane the density falls as exp(-z^2/2H^2) with (H/R)^3 = 0.22/(4 pi 10^7)/Omega, Omega^2 = m1/R^3;
   L = z^2/H^2 in thousandths, z = k/10000: L^3 = 10^-15 k^6 m1/(R^9 (0.22/(4 pi 10^7))^2) = 326264/1000 k^6 m1/R^9 *)
IsProfile(L, k, m1, R) ==
  LET q == k \div R                                  \* R divides k
      X == (q * q * q * q * q * q * m1) \div (R * R * R)
  IN L > 0 /\ L <= 1290 /\ Abs(L * L * L - X * 326 - (X * 264) \div 1000) <= 12000 + 3 * L * L + (L * L * L) \div 200
(* a disk of which all is given by parameters: stars of one speed w in it, a rational times the speed of sound, mass density
   g m1 1000/(2 pi 2000 R^3).  Drag on the surface: 4 pi rad^2 rho w^2.  Dynamical friction (Ostriker 1999) 4 pi m^2 rho I/w^2 with
   I = ln((1+M)/(1-M))/2 - M below, ln(1-1/M^2)/2 + 3 above the speed of sound, M^3/3 far below: I in ten thousandths *)
FrictionI(mach) == CASE mach = <<1, 2>> -> 493 [] mach = <<3, 5>> -> 931 [] mach = <<4, 5>> -> 2986
                     [] mach = <<5, 4>> -> 24892 [] mach = <<5, 3>> -> 27769 [] mach = <<2, 1>> -> 28562 [] mach = <<40, 1>> -> 29997
SlowI == 12288               \* M = 1/16: 1/12288
\* milli of the force divided by the mass mm, in one direction
AlphaMilli(mode, g, mach, w, m1, b, mm, R, x) ==
  LET C == R * R * R
      df  == IF mach = <<1, 16>> THEN (1000 * (g \div SlowI) * b.m * b.m * m1 * x) \div (C * w * w * w * mm)
             ELSE (FrictionI(mach) * g * b.m * b.m * m1 * x) \div (10 * C * w * w * w * mm)
      aer == (1000 * g * b.R * b.R * m1 * w * x) \div (C * mm)
  IN (IF mode = -1 THEN 0 ELSE df) + (IF mode = 1 THEN 0 ELSE aer)
=============================================================================
