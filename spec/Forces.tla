------------------------------- MODULE Forces -------------------------------
(* The accelerations a system sees: Newtonian gravity over all pairs plus the  *)
(* external forces, each class of forces on request, in any representation.    *)
(* Mutual distances are integers; everything is multiplied by K = L^3 where    *)
(* every distance divides L (then m dx K / r^3 is an integer).  A body without *)
(* mass is attracted and attracts nobody; its distance matters to the others'   *)
(* masses only.                                                                  *)
EXTENDS NBody, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
E == Traces[tr]
Abs(x) == IF x < 0 THEN -x ELSE x
D2(a, b) == Dot(Sub(a, b), Sub(a, b))
Dist(a, b) == CHOOSE r \in 1..60 : r * r = D2(a, b)
GravK == [i \in Part |-> SumV([j \in Part |-> IF i = j \/ sys.m[j] = 0 THEN Zero
             ELSE LET q == E.L \div Dist(pos[i], pos[j]) IN Scl(sys.m[j] * q * q * q, Sub(pos[j], pos[i]))], N)]
K == E.L * E.L * E.L
Near(A, B) == \A i \in Part : \A k \in 1..3 : Abs(A[i][k] - B[i][k]) <= 1
ExtKI == VScl(K, Indep(pos))
ExtKD == VScl(K, Dep(pos, vel))
PotK == LET f == [i \in Part |-> SumS([j \in Part |-> IF j <= i \/ sys.m[i] * sys.m[j] = 0 THEN 0 ELSE sys.m[i] * sys.m[j] * (E.L \div Dist(pos[i], pos[j]))], N)]
        IN -SumS(f, N)                     \* potential energy times L
OK == /\ E.pos = pos /\ E.vel = vel                                     \* evaluation changes nothing
      /\ Near(E.newton, GravK)
      /\ Near(E.total, VAdd(GravK, VAdd(ExtKI, ExtKD)))
      /\ (E.hasext => Near(E.extra, VAdd(ExtKI, ExtKD)))
      /\ (ExtIndep => Near(E.indep, ExtKI))
      /\ (VelDep => Near(E.dep, ExtKD))
      /\ Abs(E.pot - PotK) <= 1 /\ E.kin2 = Twice(vel)
      /\ Abs(E.tot2 - (2 * PotK + E.L * Twice(vel))) <= 2
(* action equals reaction *)
Balanced == SumV([i \in Part |-> Scl(sys.m[i], GravK[i])], N) = Zero
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ New([chain |-> FALSE, regu |-> "plain", forces |-> {Traces[tr].forces[i] : i \in DOMAIN Traces[tr].forces}, m |-> Traces[tr].m],
                0, Traces[tr].x, Traces[tr].v, <<>>)
TNext == \/ l = 1 /\ OK /\ Balanced /\ l' = 2 /\ tr' = tr /\ UNCHANGED svars
         \/ l = 2 /\ UNCHANGED <<svars, tr, l>>
TSpec == TInit /\ [][TNext]_<<svars, tr, l>>
=============================================================================
