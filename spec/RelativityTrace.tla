-------------------------- MODULE RelativityTrace --------------------------
(* Recorded accelerations, in thousandths (post-Newtonian ones times c^2, c^4, *)
(* c^5).  Any number of bodies: contributions of the pairs add up.             *)
EXTENDS Relativity, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
E == Traces[tr]
N == Len(E.b)
Zero == <<0, 0, 0>>
RECURSIVE SumV(_, _)
SumV(f, n) == IF n = 0 THEN Zero ELSE Add(f[n], SumV(f, n - 1))
Pair(i, j) == LET d == Sub(E.b[i].x, E.b[j].x)  r == Root(Dot(d, d))
              IN IF E.kind = "tide" THEN TideMilli(E.b[i], E.b[j], d, r) ELSE PairMilli(E.kind, E.b[i], E.b[j], d, r)
Pairs(i) == SumV([j \in 1..N |-> IF i = j THEN Zero ELSE Pair(i, j)], N)
Star(i) == Sweep(E.b[1], E.b[i], Sub(E.b[i].x, E.b[1].x))
Disk(i) == IF i > 1 THEN LET s == Star(i) IN MilliV(s.n, s.D * E.b[i].m)
           ELSE SumV([j \in 1..N |-> IF j = 1 THEN Zero ELSE LET s == Star(j) IN MilliV(Scl(-1, s.n), s.D * E.b[1].m)], N)
Alpha(i, mm) == LET d == Sub(E.b[i].x, E.b[1].x)  R == Root(Dot(d, d))  u == Sub(Sub(E.b[i].v, E.b[1].v), Whirl(E.b[1].m, d, R))
                    F(k) == -AlphaMilli(E.mode, E.g, E.mach, E.w, E.b[1].m, E.b[i], mm, R, u[k])
                IN IF u = Zero THEN Zero ELSE <<F(1), F(2), F(3)>>
AlphaAcc(i) == IF i > 1 THEN Alpha(i, E.b[i].m)
               ELSE SumV([j \in 1..N |-> IF j = 1 THEN Zero ELSE Scl(-1, Alpha(j, E.b[1].m))], N)
Acc(i) == CASE E.kind \in {"pn1", "pn2", "pn25", "tide"} -> Pairs(i)
            [] E.kind = "gas" -> GasMilli(E.b[i])
            [] E.kind = "disk" -> Disk(i)
            [] E.kind = "alpha" -> AlphaAcc(i)
(* a unit for every contribution, and the digits of the constants *)
Close(a, b) == Abs(a - b) <= N + (CASE E.kind = "gas" -> 2 + Abs(b) \div 20000 [] E.kind = "alpha" -> N + Abs(b) \div 900 [] OTHER -> 0)
Near(a, b) == \A k \in 1..3 : Close(a[k], b[k])
Bodies == /\ Len(E.extra) = N /\ Len(E.dep) = N /\ Len(E.added) = N /\ Len(E.total) = N
          /\ \A i \in 1..N : LET a == Acc(i) IN
                Near(E.extra[i], a) /\ Near(E.dep[i], a) /\ Near(E.added[i], a)
                /\ (E.kind # "pn1" => Near(E.total[i], a))
                /\ (E.kind = "pn1" => \A k \in 1..3 : Abs(E.total[i][k] - a[k]) <= N + 2)
          /\ E.pos = [i \in 1..N |-> E.b[i].x] /\ E.vel = [i \in 1..N |-> E.b[i].v]
(* 299792.458 km/s = 173.1446 AU a day *)
Light == E.kms = 299792458 /\ Abs(E.au_day - 173144632) <= 100
(* the drag opposes the motion in the disk, the disk turns about the axis, the centre gets what the star loses *)
Magneto == LET R == Root(E.x[1] * E.x[1] + E.x[2] * E.x[2])
               s == <<-(10000 * E.x[2]) \div R, (10000 * E.x[1]) \div R, 0>>
           IN (\A k \in 1..3 : Abs(E.spin[k] - s[k]) <= 1 /\ Abs(E.drag[k] + E.rel[k]) <= 1 /\ Abs(E.rest[k]) <= 1) /\ E.drag # Zero
OK == IF E.kind = "magneto" THEN Magneto ELSE IF E.kind = "profile" THEN IsProfile(E.L, E.k, E.m, E.R) ELSE IF E.kind = "light" THEN Light ELSE Bodies
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l = 1 /\ OK = TRUE /\ l' = 2 /\ tr' = tr
         \/ l = 2 /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
