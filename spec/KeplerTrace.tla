---------------------------- MODULE KeplerTrace ----------------------------
EXTENDS Kepler, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1
V3(ok(_)) == \A j \in 1..3 : ok(j)
Place == /\ E.e = "place" /\ E.kept = 1 /\ E.rigid <= T.tol /\ (E.k # 4 => Abs(E.sl - S * E.p) <= 1)
         /\ E.ty = (IF E.k < 4 THEN "ellipse" ELSE IF E.k = 4 THEN "parabola" ELSE "hyperbola")
         /\ IsPos(E.x, E, 1 + L1(E.x) \div (IF T.tol > 6 THEN 2000 ELSE 1000000)) /\ IsVel(E.v, E, 1 + L1(E.v) \div (IF T.tol > 6 THEN 2000 ELSE 1000000))
Close(a, b, tol) == V3(LAMBDA j : Abs(a[j] - b[j]) <= tol)
(* turned by om about z, by i about x and by O about z; 125 to the unit *)
Rot == /\ E.e = "rot"
       /\ LET a == E.a x1 == E.om[1] * a[1] - E.om[2] * a[2] y1 == E.om[2] * a[1] + E.om[1] * a[2]
              y2 == E.i[1] * y1 - 5 * E.i[2] * a[3] z2 == E.i[2] * y1 + 5 * E.i[1] * a[3]
          IN Close(E.x, <<8 * (5 * E.O[1] * x1 - E.O[2] * y2), 8 * (5 * E.O[2] * x1 + E.O[1] * y2), 40 * z2>>, 1)
Meas == /\ E.e = "meas" /\ E.kept = 1
        /\ LET u == E.m1 + E.m2 r == E.r dr == E.dr dv == E.dv h == Energy2(r, u, dv) EE == Ecc(r, u, dr, dv) L == Cross(dr, dv) IN
           /\ Oriented(E.c, r, u, dr, dv, T.tol) /\ Shaped(E.c, r, u, dr, dv)
           /\ Close(E.x, Mul(S, dr), (T.tol * r) \div 4 + 2) /\ Close(E.v, Mul(S, dv), (T.tol * L1(dv)) \div 4 + 2)
           /\ h # 0 => (\A j \in 1..4 : IsRatio(E.a[j], S, -(u * r), h, 1))
           /\ h = 0 => (\A j \in 1..4 : E.a[j] = 0)
           /\ \A j \in 1..2 : Abs(E.es[j] - E.c.e) <= 1
           /\ V3(LAMBDA j : IsRatio(E.E2[j], S, EE[j], u * r, 1) /\ IsRatio(E.E3[j], S, EE[j], u * r, 1) /\ IsRatio(E.E4[j], S, EE[j], u * r, 1))
           /\ V3(LAMBDA j : IsRatio(E.L3[j], S, E.m1 * E.m2 * L[j], u, 1) /\ IsRatio(E.L4[j], S, E.m1 * E.m2 * L[j], u, 1))
           /\ h < 0 => IsRoot(E.P, MulDiv(10000, u * u * r * r * r, -h * h * h)) /\ Abs(E.P - E.Pk) <= 1 + E.P \div (IF T.tol > 6 THEN 1000 ELSE 1000000)
(* 1000 b w times the normal, which is (sO si, -cO si, 5 ci) / 25 *)
Hyp == /\ E.e = "hyp" /\ E.kept = 1 /\ E.ty = "hyperbola"
       /\ LET lw == E.bb * E.w P == PosN([O |-> E.O, i |-> E.i, om |-> E.om, nu |-> <<5, 0>>, k |-> 0])
              n == <<E.O[2] * E.i[2], -(E.O[1] * E.i[2]), 5 * E.i[1]>> IN
          /\ Abs(E.R - E.r) <= 1 /\ Abs(E.h2 - S * E.w * E.w) <= 1 /\ Close(E.L, Mul(40 * lw, n), 1) /\ Abs(E.pu - S * lw * lw) <= 1
          /\ IsRoot(E.ec, S * S + Million(lw * lw * E.w * E.w, E.u * E.u))
          /\ Along(<<P[1], P[2], P[3]>>, E.E, 2) /\ Abs(MulDiv(1, Dot(P, E.E), 625) - E.ec) <= 4
          /\ IF E.dir = "out" THEN E.rv >= -1 ELSE E.rv <= 1
          \* away from the periapsis the body moves along the line of sight
          /\ (E.R \div 100) * ((E.ec + S) \div 100) > (120 * lw * lw) \div E.u + 10 => E.rv # 0
TNext == l <= Len(T.ev) /\ (Place \/ Rot \/ Meas \/ Hyp) /\ l' = l + 1 /\ tr' = tr
TDone == l > Len(T.ev) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext \/ TDone]_<<tr, l>>
=============================================================================
