------------------------------- MODULE Motion -------------------------------
(* Bodies in motion: everything a run of the library must reproduce exactly.   *)
(* Any central configuration moves along similar conics: body i is at          *)
(* z(t) c_i in the (complex) plane of motion, c_i its place in the             *)
(* configuration, z(t) a solution of z'' = -mu z/|z|^3.  Two bodies always do; *)
(* so do three arbitrary masses on an equilateral triangle and equal masses on *)
(* a regular polygon about a mass in its centre.  The conic is an ellipse,     *)
(* parabola or hyperbola; the places are those with rational coordinates.      *)
(* All numbers are in millionths.                                              *)
EXTENDS Integers, Sequences
S == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
(* a b / S without leaving 32 bits, |a|, |b| < 4.5e7; exact to two units *)
MulP(a, b) == LET p == a \div 1000  q == a % 1000  u == b \div 1000  w == b % 1000
              IN p * u + (p * w + q * u + (q * w) \div 1000) \div 1000
Mul(a, b) == LET m == MulP(Abs(a), Abs(b)) IN IF (a < 0) = (b < 0) THEN m ELSE -m
(* S n / d, |n| < 2e3 d, d < 1e6; half a unit *)
Q(n, d) == LET r == n % d  s == (1000 * r) % d
           IN S * (n \div d) + 1000 * ((1000 * r) \div d) + (1000 * s + d \div 2) \div d
TwoPi == 6283185
(*------------------------------ places on the orbit ----------------------------*)
(* ellipse: <<cosine, sine (over 5), eccentric anomaly>>; hyperbola: <<cosh, sinh over 24, anomaly>>; parabola: <<D over 2>> *)
Turns == << <<5, 0, 0>>, <<4, 3, 643501>>, <<3, 4, 927295>>, <<0, 5, 1570796>>, <<-3, 4, 2214297>>, <<-4, 3, 2498092>>,
            <<-5, 0, 3141593>>, <<-4, -3, 3785094>>, <<-3, -4, 4068888>>, <<0, -5, 4712389>>, <<3, -4, 5355890>>, <<4, -3, 5639684>> >>
Bends == << <<24, 0, 0>>, <<30, 18, 693147>>, <<40, 32, 1098612>>, <<51, 45, 1386294>>, <<51, -45, -1386294>>, <<40, -32, -1098612>>, <<30, -18, -693147>> >>
Slopes == <<0, 1, 2, 3, 4, -4, -3, -2, -1>>
Places(o) == IF o.type = "ellipse" THEN Len(Turns) ELSE IF o.type = "hyperbola" THEN Len(Bends) ELSE Len(Slopes)
(* o: type, a (size, in halves; periapsis distance of a parabola), e = en/ed, b: root of |1 - e^2|, = bn/ed, n: mean motion nn/nd *)
Mean(o, p, turn) ==
  CASE o.type = "ellipse"   -> Turns[p][3] + turn * TwoPi - Q(o.en * Turns[p][2], o.ed * 5)
    [] o.type = "hyperbola" -> Q(o.en * Bends[p][2], o.ed * 24) - Bends[p][3]
    [] o.type = "parabola"  -> Q(12 * Slopes[p] + Slopes[p] * Slopes[p] * Slopes[p], 24)
(* time since periapsis *)
Time(o, p, turn) == (Mean(o, p, turn) * o.nd) \div o.nn
Half(o, n, d) == Q(o.a2 * n, 2 * d)
Pos(o, p) ==
  CASE o.type = "ellipse"   -> <<Half(o, Turns[p][1] * o.ed - 5 * o.en, 5 * o.ed), Half(o, o.bn * Turns[p][2], 5 * o.ed)>>
    [] o.type = "hyperbola" -> <<Half(o, 24 * o.en - Bends[p][1] * o.ed, 24 * o.ed), Half(o, o.bn * Bends[p][2], 24 * o.ed)>>
    [] o.type = "parabola"  -> <<Half(o, 4 - Slopes[p] * Slopes[p], 4), Half(o, Slopes[p], 1)>>
(* velocity: mean motion times derivative by the anomaly over derivative of the mean anomaly *)
Rate(o, n, d) == Q(o.nn * o.a2 * n, o.nd * 2 * d)
Vel(o, p) ==
  CASE o.type = "ellipse"   -> LET k == 5 * o.ed - o.en * Turns[p][1] IN <<Rate(o, -Turns[p][2] * o.ed, k), Rate(o, o.bn * Turns[p][1], k)>>
    [] o.type = "hyperbola" -> LET k == o.en * Bends[p][1] - 24 * o.ed IN <<Rate(o, -Bends[p][2] * o.ed, k), Rate(o, o.bn * Bends[p][1], k)>>
    [] o.type = "parabola"  -> LET k == 4 + Slopes[p] * Slopes[p] IN <<Rate(o, -4 * Slopes[p], k), Rate(o, 8, k)>>
(* what it is a solution of: mu = n^2 a^3, parabola 2 n^2 q^3;  as <<numerator, denominator>> *)
Mu(o) == IF o.type = "parabola" THEN <<o.nn * o.nn * o.a2 * o.a2 * o.a2, o.nd * o.nd * 4>> ELSE <<o.nn * o.nn * o.a2 * o.a2 * o.a2, o.nd * o.nd * 8>>
(*----------------------------- central configurations -----------------------------*)
R3 == 1732051
Corner(k, N) == CASE N = 2 -> (<< <<S, 0>>, <<-S, 0>> >>)[k]
                  [] N = 3 -> (<< <<S, 0>>, <<-S \div 2, R3 \div 2>>, <<-S \div 2, -R3 \div 2>> >>)[k]
                  [] N = 4 -> (<< <<S, 0>>, <<0, S>>, <<-S, 0>>, <<0, -S>> >>)[k]
                  [] N = 6 -> (<< <<S, 0>>, <<S \div 2, R3 \div 2>>, <<-S \div 2, R3 \div 2>>, <<-S, 0>>, <<-S \div 2, -R3 \div 2>>, <<S \div 2, -R3 \div 2>> >>)[k]
(* place of role k *)
Seat(c, k) ==
  CASE c.kind = "pair"     -> IF k = 1 THEN <<-Q(c.m[2], c.m[1] + c.m[2]), 0>> ELSE <<Q(c.m[1], c.m[1] + c.m[2]), 0>>
    [] c.kind = "triangle" -> LET M == c.m[1] + c.m[2] + c.m[3]
                                  gx == Q(2 * c.m[2] + c.m[3], 2 * M)   gy == ((R3 \div 2) * c.m[3]) \div M
                              IN (<< <<-gx, -gy>>, <<S - gx, -gy>>, <<S \div 2 - gx, R3 \div 2 - gy>> >>)[k]
    [] c.kind = "ring"     -> IF k = c.N + 1 THEN <<0, 0>> ELSE Corner(k, c.N)
Seats(c) == IF c.kind = "pair" THEN 2 ELSE IF c.kind = "triangle" THEN 3 ELSE c.N + 1
(* gravity of unit masses on the unit circle on one of them, sum 1/(4 sin(pi k/N)) *)
RingPull(N) == CASE N = 2 -> 250000 [] N = 3 -> 577350 [] N = 4 -> 957107 [] N = 6 -> 1827350
Times(z, c) == <<Mul(z[1], c[1]) - Mul(z[2], c[2]), Mul(z[1], c[2]) + Mul(z[2], c[1])>>
(* the plane of motion in space: orthonormal vectors over 15 *)
In(w, f) == [i \in 1..3 |-> Mul(w[1], Q(f.P[i], 15)) + Mul(w[2], Q(f.Q[i], 15))]
=============================================================================
