------------------------------- MODULE Groups -------------------------------
(* Groups of point masses: their mass, centre, energies and size, and rigid      *)
(* motions of a group. Positions and velocities are integers, SC to the unit;    *)
(* potentials are in units of 1/LC; G = 1.                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT SC
LC == 27720
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x < y THEN y ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
Zero == <<0, 0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Div(a, k) == <<a[1] \div k, a[2] \div k, a[3] \div k>>
Divides(k, a) == \A i \in 1..3 : a[i] % k = 0
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
IsRoot(r, n) == Abs(r * r - n) <= r + 1
RECURSIVE Sum(_, _)
Sum(g, f) == IF g = <<>> THEN 0 ELSE f[Head(g)] + Sum(Tail(g), f)
RECURSIVE SumV(_, _)
SumV(g, f) == IF g = <<>> THEN Zero ELSE Add(f[Head(g)], SumV(Tail(g), f))
Range(g) == {g[k] : k \in 1..Len(g)}
Mass(m, g) == Sum(g, m)
Weighted(m, x) == [i \in 1..Len(m) |-> Mul(m[i], x[i])]
Moment(m, x, g) == SumV(g, Weighted(m, x))
Centre(m, x, g) == Div(Moment(m, x, g), Mass(m, g))        \* only asked where it is a grid point
OnGrid(m, x, g) == Divides(Mass(m, g), Moment(m, x, g))
TwiceKin(m, v, g) == Sum(g, [i \in 1..Len(m) |-> m[i] * Sq(v[i])])
(* the integer distance of two bodies, in units *)
Dist2(x, i, j) == Sq(Sub(x[i], x[j]))
Dist(x, i, j) == CHOOSE d \in 0..60 : (d * SC) * (d * SC) = Dist2(x, i, j)
Pairs(g) == {<<a, b>> \in (1..Len(g)) \X (1..Len(g)) : a < b}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumOver(S \ {e}, f)
Potential(m, x, g) == -SumOver(Pairs(g), [p \in Pairs(g) |-> m[g[p[1]]] * m[g[p[2]]] * (LC \div Dist(x, g[p[1]], g[p[2]]))])
(* w twice a kinetic energy on the grid; in units of 1/LC *)
HalfLC(w) == LET q == 2 * SC * SC IN LC * (w \div q) + (LC * (w % q)) \div q
MaxDist2(x, g) == LET D == {Dist2(x, g[p[1]], g[p[2]]) : p \in Pairs(g)} IN CHOOSE d \in D : \A e \in D : e <= d
AngMom(m, x, v, g) == SumV(g, [i \in 1..Len(m) |-> Mul(m[i], Cross(x[i], v[i]))])
(* times the mass of the group: the part that does not come from the motion of its centre *)
Isolated(m, x, v, g) == Sub(Mul(Mass(m, g), AngMom(m, x, v, g)), Cross(Moment(m, x, g), Moment(m, v, g)))
Inner2(m, v, g) == LET c == Centre(m, v, g) IN Sum(g, [i \in 1..Len(m) |-> m[i] * Sq(Sub(v[i], c))])
(* rigid motion of a group that takes its centre to c *)
Moved(m, x, g, c) == LET d == Sub(c, Centre(m, x, g)) IN [i \in 1..Len(m) |-> IF i \in Range(g) THEN Add(x[i], d) ELSE x[i]]
=============================================================================
