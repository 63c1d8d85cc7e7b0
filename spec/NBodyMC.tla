------------------------------ MODULE NBodyMC ------------------------------
(* Design checks of the particle-system machine on a small system.             *)
EXTENDS NBody, TLC
CONSTANTS MaxOps, Dts
DtSet == {2, -2}
VARIABLES ops, base, gear, mom, twin
mvars == <<ops, base, gear, mom, twin>>
(* base: image when the increments were last cleared, gear: it is comparable (collected ever since);
   mom: total momentum; twin: velocities of a Cartesian twin *)
P(v) == SumV([i \in Part |-> Scl(sys.m[i], v[i])], N)
Perms == {p \in [1..3 -> 1..3] : \A a, b \in 1..3 : a # b => p[a] # p[b]}
Init == /\ \E c \in BOOLEAN, r \in {"plain", "LogH", "TTL", "None"},
             f \in {{}, {"field"}, {"trap"}, {"drag"}, {"field", "shear"}, {"trap", "drag", "shear"}} :
             \E ix \in (IF c THEN Perms ELSE {<<1, 2, 3>>}) :
             New([chain |-> c, regu |-> r, forces |-> f, m |-> <<1, 1, 1>>], 0,
                 <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>>>, <<<<1, 0, 0>>, <<0, 1, -1>>, <<0, -1, 0>>>>, ix)
        /\ ops = 0 /\ base = Image /\ gear = FALSE /\ mom = P(vel) /\ twin = vel
Step == ops < MaxOps /\ ops' = ops + 1
DriftOp == \E d \in Dts : Step /\ Drift(d) /\ UNCHANGED <<base, gear, mom, twin>>
Tame == \A i \in Part : \A k \in 1..3 : vel[i][k] < 60 /\ vel[i][k] > -60 /\ aux[i][k] < 60 /\ aux[i][k] > -60 /\ pos[i][k] < 60 /\ pos[i][k] > -60
KickOp  == \E d \in Dts : Tame /\ Step /\ Kick(d) /\ mom' = P(vel') /\ twin' = vel' /\ UNCHANGED <<base, gear>>
PreOp   == Step /\ Pre /\ aux # aux' /\ gear' = FALSE /\ UNCHANGED <<base, mom, twin>>
PostOp  == \E ix \in Perms : Step /\ ix # idx /\ sys.chain /\ Post(ix) /\ gear' = FALSE /\ UNCHANGED <<base, mom, twin>>
Arm     == Step /\ ~sync /\ sync' = TRUE /\ inc' = NoInc /\ UNCHANGED <<sys, t, pos, vel, aux, om, be, idx>>
           /\ base' = Image /\ gear' = TRUE /\ UNCHANGED <<mom, twin>>
SaveLoad == Step /\ Load(Image) /\ UNCHANGED mvars
Next == DriftOp \/ KickOp \/ PreOp \/ PostOp \/ Arm
Spec == Init /\ [][Next]_<<svars, mvars>>

RoundTrip == FromChain(ToChain(pos, idx), idx) = pos /\ UnRep(Rep(vel)) = vel
(* without external forces total momentum never changes *)
Momentum  == sys.forces \subseteq {"shear"} => mom = P(vel) /\ mom = <<1, 0, -1>>
(* what has been collected is exactly what the state array has changed by *)
IncIsChange == gear => /\ inc.t = Image.t - base.t
                       /\ \A i \in Part : /\ inc.pos[i] = Sub(Image.pos[i], base.pos[i])
                                          /\ inc.vel[i] = Sub(Image.vel[i], base.vel[i])
                                          /\ (VelDep => inc.aux[i] = Sub(Image.aux[i], base.aux[i]))
                       /\ (HasRegu => inc.om = Image.om - base.om /\ inc.be = Image.be - base.be)
Accumulators == (sys.regu # "TTL" => om = 0) /\ (sys.regu # "LogH" \/ sys.forces = {} => be = 0)
=============================================================================
