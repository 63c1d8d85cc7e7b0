----------------------------- MODULE Regularise -----------------------------
(* The scale of a time transformed step.                                       *)
(*   U = sum m_i m_j / r_ij,  T = sum m v^2 / 2                                *)
(*   at construction  omega = U,  binding energy = U - T,  scale = U (None: 1) *)
(*   LogH: a drift of size h covers h / (binding energy + T), a kick h / U     *)
(*   TTL : a drift of size h covers h / omega,                a kick h / U     *)
(*   None: both cover h                                                        *)
(* Everything is multiplied by 2K where every distance divides K.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Tr == Traces[tr]
Ev == Tr.ev
E  == Ev[l]
N == Len(Tr.m)
K == Tr.K
Abs(x) == IF x < 0 THEN -x ELSE x
D2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2]) + (a[3]-b[3])*(a[3]-b[3])
Dist(a, b) == CHOOSE r \in 1..60 : r * r = D2(a, b)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
PairU(x) == Sum([i \in 1..N |-> Sum([j \in 1..N |-> IF j <= i THEN 0 ELSE Tr.m[i] * Tr.m[j] * ((2 * K) \div Dist(x[i], x[j]))], N)], N)
Kin(v) == K * Sum([i \in 1..N |-> Tr.m[i] * (v[i][1]*v[i][1] + v[i][2]*v[i][2] + v[i][3]*v[i][3])], N)
Close(a, b) == Abs(a - b) <= 1
(* e.om, e.be: current accumulators times 2K *)
DriftScale(e) == CASE Tr.regu = "LogH" -> e.be + Kin(e.vel) [] Tr.regu = "TTL" -> e.om [] OTHER -> 2 * K
KickScale(e)  == IF Tr.regu = "None" THEN 2 * K ELSE PairU(e.pos)
StepOK == CASE E.e = "new"   -> /\ Close(E.om, PairU(E.pos)) /\ Close(E.be, PairU(E.pos) - Kin(E.vel))
                                /\ Close(E.scale, IF Tr.regu = "None" THEN 2 * K ELSE PairU(E.pos))
            [] E.e = "drift" -> Close(E.ratio, DriftScale(E)) /\ Close(E.scale, DriftScale(E))
            [] E.e = "kick"  -> Close(E.ratio, KickScale(E)) /\ Close(E.scale, KickScale(E))
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Ev) /\ StepOK /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
