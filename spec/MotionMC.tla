------------------------------ MODULE MotionMC ------------------------------
(* The places belong to one orbit: energy, angular momentum and the vector to  *)
(* the periapsis are the same everywhere, the mean anomaly is that of Kepler's *)
(* equation and grows from place to place; the velocity is the derivative of   *)
(* the position by time; configurations are central, about their own centre.   *)
EXTENDS Motion
VARIABLES o, p, turn, c
vars == <<o, p, turn, c>>
Ell(a2, en, ed, bn, nn, nd) == [type |-> "ellipse", a2 |-> a2, en |-> en, ed |-> ed, bn |-> bn, nn |-> nn, nd |-> nd]
Hyp(a2, en, ed, bn, nn, nd) == [type |-> "hyperbola", a2 |-> a2, en |-> en, ed |-> ed, bn |-> bn, nn |-> nn, nd |-> nd]
Par(a2, nn, nd) == [type |-> "parabola", a2 |-> a2, en |-> 1, ed |-> 1, bn |-> 0, nn |-> nn, nd |-> nd]
Orbits == {Ell(8, 3, 5, 4, 1, 4), Ell(4, 0, 1, 1, 1, 1), Ell(4, 4, 5, 3, 1, 2), Ell(2, 5, 13, 12, 2, 1), Ell(6, 3, 5, 4, 1, 3),
           Hyp(2, 5, 4, 3, 1, 1), Hyp(4, 5, 3, 4, 1, 2), Hyp(2, 17, 8, 15, 2, 1), Par(2, 1, 1), Par(4, 1, 2)}
Confs == {[kind |-> "pair", m |-> <<3, 1>>], [kind |-> "pair", m |-> <<1, 7>>], [kind |-> "triangle", m |-> <<1, 1, 2>>], [kind |-> "triangle", m |-> <<4, 3, 1>>]}
         \cup {[kind |-> "ring", N |-> N, m |-> <<k>>] : N \in {2, 3, 4, 6}, k \in {0, 1}}
Init == o \in Orbits /\ p = 1 /\ turn = 0 /\ c \in Confs
(* on to the next place of the ellipse; any place of an open orbit *)
Next == /\ UNCHANGED <<o, c>>
        /\ IF o.type = "ellipse" THEN /\ turn < 2 /\ p' = (p % Places(o)) + 1 /\ turn' = IF p' = 1 THEN turn + 1 ELSE turn
           ELSE p' \in 1..Places(o) /\ turn' = 0
Spec == Init /\ [][Next]_vars
z == Pos(o, p)
w == Vel(o, p)
Mu6 == LET m == Mu(o) IN Q(m[1], m[2])
(* |z| by the conic: r = a(1 - e cos E), a(e cosh H - 1), q(1 + D^2) *)
Radius == CASE o.type = "ellipse" -> Half(o, 5 * o.ed - o.en * Turns[p][1], 5 * o.ed)
            [] o.type = "hyperbola" -> Half(o, o.en * Bends[p][1] - 24 * o.ed, 24 * o.ed)
            [] o.type = "parabola" -> Half(o, 4 + Slopes[p] * Slopes[p], 4)
Near(a, b, k) == Abs(a - b) <= k
IsRadius == Near(Mul(z[1], z[1]) + Mul(z[2], z[2]), Mul(Radius, Radius), 100)
(* r (v^2) = 2 mu - mu r / a   (hyperbola: +, parabola: 2 mu) *)
Energy == LET E1 == Mul(Radius, Mul(w[1], w[1]) + Mul(w[2], w[2]))
              ra == 2 * (Mul(Mu6, Radius) \div o.a2)
          IN Near(E1, 2 * Mu6 - (IF o.type = "ellipse" THEN ra ELSE IF o.type = "hyperbola" THEN -ra ELSE 0), 300)
(* h^2 = mu a |1 - e^2|, = 2 mu q *)
Spin == LET h == Mul(z[1], w[2]) - Mul(z[2], w[1]) IN
        Near(Mul(h, h), IF o.type = "parabola" THEN Mu6 * o.a2 ELSE Mul(Half(o, o.bn, o.ed), Mul(Mu6, Q(o.bn, o.ed))), 500)
(* mu e = w x h - mu z/r, along the first axis: times r *)
Apsis == LET h == Mul(z[1], w[2]) - Mul(z[2], w[1]) IN
         /\ Near(Mul(Radius, Mul(w[2], h)) - Mul(Mu6, z[1]), Mul(Mul(Mu6, Q(o.en, o.ed)), Radius), 1000)
         /\ Near(-Mul(Radius, Mul(w[1], h)) - Mul(Mu6, z[2]), 0, 1000)
Tables == /\ \A i \in 1..12 : Turns[i][1] * Turns[i][1] + Turns[i][2] * Turns[i][2] = 25
          /\ \A i \in 1..7 : Bends[i][1] * Bends[i][1] - Bends[i][2] * Bends[i][2] = 576
          \* addition theorems pin the angles to pi and the logarithms
          /\ \A i \in 1..12, j \in 1..12, k \in 1..12 :
               (/\ Turns[k][1] * 5 = Turns[i][1] * Turns[j][1] - Turns[i][2] * Turns[j][2]
                /\ Turns[k][2] * 5 = Turns[i][1] * Turns[j][2] + Turns[i][2] * Turns[j][1])
               => LET d == Turns[i][3] + Turns[j][3] - Turns[k][3] IN Abs(d) <= 2 \/ Abs(d - TwoPi) <= 2
          /\ Near(2 * Bends[2][3], Bends[4][3], 1)
Grows == [][p' # p => IF o.type = "ellipse" THEN Mean(o, p', turn') > Mean(o, p, turn)
                      ELSE (Mean(o, p', 0) > Mean(o, p, 0) <=> Pos(o, p')[2] > Pos(o, p)[2])]_vars
(* the chord is at most the longer velocity times the time, as long as the periapsis is not in between; and next places of open
   orbits are joined by the fourth order rule dz = dt/2 (w + w') + dt^2/12 (a - a'), a = -mu z/r^3, give or take a tenth *)
Pull0(q, r) == LET k == Mul(r, Mul(r, r)) IN <<-(Mul(Mu6, Pos(o, q)[1]) \div (k \div 1000)) * 1000, -(Mul(Mu6, Pos(o, q)[2]) \div (k \div 1000)) * 1000>>
RadiusAt(q) == IF o.type = "hyperbola" THEN Half(o, o.en * Bends[q][1] - 24 * o.ed, 24 * o.ed) ELSE Half(o, 4 + Slopes[q] * Slopes[q], 4)
Hermite == [][(o.type # "ellipse" /\ Abs(p' - p) = 1 /\ p > 1 /\ p' > 1 /\ (Pos(o, p)[2] > 0 <=> Pos(o, p')[2] > 0)) =>
   LET dt == Time(o, p', 0) - Time(o, p, 0)
       a == Pull0(p, RadiusAt(p))  b == Pull0(p', RadiusAt(p'))
   IN \A k \in 1..2 : LET dz == Pos(o, p')[k] - Pos(o, p)[k] IN
        Near(dz, Mul(dt, (Vel(o, p)[k] + Vel(o, p')[k]) \div 2) + Mul(Mul(dt, dt), (a[k] - b[k]) \div 12), Abs(dt) \div 100)]_vars
Chord == [][LET dt == Time(o, p', turn') - Time(o, p, turn)
                dz == <<Pos(o, p')[1] - Pos(o, p)[1], Pos(o, p')[2] - Pos(o, p)[2]>>
                v2(q) == Mul(Vel(o, q)[1], Vel(o, q)[1]) + Mul(Vel(o, q)[2], Vel(o, q)[2])
                m == LET a == v2(p)  b == v2(p') IN IF a > b THEN a ELSE b
            IN (p' # p /\ o.type = "ellipse") => Mul(dz[1], dz[1]) + Mul(dz[2], dz[2]) <= Mul(Mul(dt, dt), m) + 100]_vars
(* gravity at every seat points to the centre, proportional to the distance from it: sum m_j (c_j - c_i)/|c_j - c_i|^3 = -mu c_i *)
IRoot(x) == CHOOSE r \in 0..3000 : r * r <= x /\ (r + 1) * (r + 1) > x         \* thousandths
Gap3(i, j) == LET u == Seat(c, i)[1] - Seat(c, j)[1]  v == Seat(c, i)[2] - Seat(c, j)[2]
                  d == IRoot(Mul(u, u) + Mul(v, v))                              \* square in millionths, root in thousandths
              IN ((d * d) \div 1000) * d                                            \* cube in millionths
MassOf(i) == IF c.kind = "ring" THEN c.m[1] ELSE c.m[i]
Pull(i, k) == LET f(j) == IF j = i THEN 0 ELSE MassOf(j) * ((1000 * (Seat(c, j)[k] - Seat(c, i)[k])) \div (Gap3(i, j) \div 1000))
                  RECURSIVE s(_)
                  s(n) == IF n = 0 THEN 0 ELSE f(n) + s(n - 1)
              IN s(IF c.kind = "ring" THEN c.N ELSE Seats(c))
CentralMu == IF c.kind = "pair" THEN S * (c.m[1] + c.m[2]) ELSE IF c.kind = "triangle" THEN S * (c.m[1] + c.m[2] + c.m[3]) ELSE c.m[1] * RingPull(c.N)
Central == /\ p = 1 /\ turn = 0 => \A i \in 1..(IF c.kind = "ring" THEN c.N ELSE Seats(c)) : \A k \in 1..2 :
                Near(Pull(i, k), -Mul(CentralMu, Seat(c, i)[k]), 60000)
           /\ LET g(k) == LET RECURSIVE s(_)
                              s(n) == IF n = 0 THEN 0 ELSE MassOf(n) * Seat(c, n)[k] + s(n - 1)
                          IN s(IF c.kind = "ring" THEN c.N ELSE Seats(c))
              IN Near(g(1), 0, 20) /\ Near(g(2), 0, 20)
=============================================================================
