----------------------------- MODULE GroupsTrace -----------------------------
EXTENDS Groups, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, x, v
T == Traces[tr]
m == T.m
E == T.ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 2 /\ x = Traces[tr].ev[1].p /\ v = Traces[tr].ev[1].v
Same == UNCHANGED <<x, v>>
Size2(g, form) == IF Len(g) = 1 THEN (T.r[g[1]] * SC) * (T.r[g[1]] * SC) ELSE MaxDist2(x, g)
Size(g) == IF Len(g) = 1 THEN T.r[g[1]] ELSE CHOOSE d \in 0..60 : (d * SC) * (d * SC) = MaxDist2(x, g)
Meas == /\ E.e = "meas" /\ Same
        /\ LET g == E.g M == Mass(m, g) U == Potential(m, x, g) cv == Centre(m, v, g) IN
           /\ E.M = M /\ E.cp = Centre(m, x, g) /\ E.cv = cv
           /\ E.Ek = TwiceKin(m, v, g) /\ E.Ec = M * Sq(cv)
           /\ Near(E.Ep, U, 0) /\ Near(E.Et, U + HalfLC(TwiceKin(m, v, g)), 1) /\ Near(E.Ei, U + HalfLC(Inner2(m, v, g)), 1)
           /\ IsRoot(E.sz, Size2(g, E.form))
Move == /\ E.e = "move"
        /\ x' = (IF E.what \in {"p", "b"} THEN Moved(m, x, E.g, Mul(SC, E.tp)) ELSE IF E.what = "f" THEN Moved(m, x, E.g, Zero) ELSE x)
        /\ v' = (IF E.what \in {"v", "b"} THEN Moved(m, v, E.g, Mul(SC, E.tv)) ELSE IF E.what = "f" THEN Moved(m, v, E.g, Zero) ELSE v)
        /\ E.p = x' /\ E.v = v'
Cube(a) == a * a * a
(* N is S times a/b, to the nearest unit *)
IsRatio(N, S, a, b) == Abs(N * b - S * a) <= b
(* N is 16 times the cube root of a/b *)
IsCbrt(N, a, b) == b * Cube(N - 1) <= 4096 * a /\ 4096 * a <= b * Cube(N + 1)
Pair == /\ E.e = "pair" /\ Same
        /\ LET a == Mass(m, E.g) b == Mass(m, E.h)
               d2 == Sq(Sub(Centre(m, x, E.g), Centre(m, x, E.h)))
               d == CHOOSE k \in 0..60 : (k * SC) * (k * SC) = d2
               S1 == Size(E.g) S2 == Size(E.h)
               big == IF a * Cube(E.R2) * a >= b * Cube(E.R1) * b THEN 1 ELSE 2
           IN /\ IsRatio(E.mr, 1000, a * b, a + b)
              /\ IsRatio(-E.et, 1000, a * b * (E.R1 + E.R2), d * d) /\ IsRatio(-E.es, 1000, a * b * (S1 + S2), d * d)
              /\ IsRatio(E.f1, 1000, b * Cube(E.R1), a * Cube(d)) /\ IsRatio(E.f2, 1000, a * Cube(E.R2), b * Cube(d))
              /\ IsRatio(E.s1, 1000, b * Cube(S1), a * Cube(d)) /\ IsRatio(E.s2, 1000, a * Cube(S2), b * Cube(d))
              /\ IsCbrt(E.tr, a * E.gg * Cube(E.R2), b) /\ IsCbrt(E.ts, a * E.gg * Cube(S2), b)
              /\ IF big = 1 THEN IsCbrt(E.tm, a * E.gg * Cube(E.R2), b) ELSE IsCbrt(E.tm, b * E.gg * Cube(E.R1), a)
All == [i \in 1..Len(m) |-> i]
X == [i \in 1..Len(m) |-> Div(x[i], SC)]
V == [i \in 1..Len(m) |-> Div(v[i], SC)]
FallOk(N) == LET ok(p) == LET i == p[1] j == p[2] M == m[i] + m[j] IN Abs(N * M - LC * Cube(Dist(x, i, j))) <= M
                 least(p) == \A q \in Pairs(All) : Cube(Dist(x, p[1], p[2])) * (m[q[1]] + m[q[2]]) <= Cube(Dist(x, q[1], q[2])) * (m[p[1]] + m[p[2]])
             IN \E p \in Pairs(All) : least(p) /\ ok(p)
Sys == /\ E.e = "sys" /\ Same
       /\ LET M == Mass(m, All) U == Potential(m, x, All) t2 == TwiceKin(m, V, All) P == Moment(m, X, All) IN
          /\ E.T = t2 /\ E.U = U /\ Near(E.E, LC * t2 + 2 * U, 1)
          /\ E.L = AngMom(m, X, V, All) /\ E.Lg = AngMom(m, X, V, E.g) /\ E.Li = Isolated(m, X, V, E.g)
          /\ E.com = P /\ E.cov = Moment(m, V, All) /\ E.mv = [i \in 1..Len(m) |-> Sub(Mul(M, X[i]), P)]
          /\ FallOk(E.f)
          /\ IF E.reg = 1 THEN E.er = 0 ELSE Near(E.er, Abs(LC * t2 + 2 * U - 2 * LC * E.E0), 1)
          /\ Len(E.g) >= 2 => E.pp = -(m[E.g[1]] * m[E.g[2]] * (LC \div Dist(x, E.g[1], E.g[2])))
TNext == l <= Len(T.ev) /\ (Meas \/ Move \/ Pair \/ Sys) /\ l' = l + 1 /\ tr' = tr
TDone == l > Len(T.ev) /\ UNCHANGED <<tr, l, x, v>>
TSpec == TInit /\ [][TNext \/ TDone]_<<tr, l, x, v>>
=============================================================================
