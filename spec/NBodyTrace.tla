----------------------------- MODULE NBodyTrace -----------------------------
(* Recorded life of one real particle system; every event carries what can be  *)
(* seen of the system afterwards: time, positions, velocities, the flat state  *)
(* array (img), the collected increments and the chain order.                  *)
EXTENDS NBody, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, auxok
Tr == Traces[tr]
Ev == Tr.ev
E  == Ev[l]
SysOf(s) == [chain |-> s.chain, regu |-> s.regu, forces |-> {s.forces[i] : i \in DOMAIN s.forces}, m |-> s.m]
Seen(e) == /\ t' = e.t /\ pos' = e.pos /\ vel' = e.vel
           /\ LET y == Image' IN
                /\ e.img.t = y.t /\ e.img.pos = y.pos /\ e.img.vel = y.vel
                /\ (auxok' => e.img.aux = y.aux) /\ e.img.om = y.om /\ e.img.be = y.be
           /\ e.inc.t = inc'.t /\ e.inc.pos = inc'.pos /\ e.inc.vel = inc'.vel
           /\ (VelDep => e.inc.aux = inc'.aux)
           /\ (HasRegu => e.inc.om = inc'.om /\ e.inc.be = inc'.be)
           /\ (sys.chain => e.idx = idx')
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ auxok = TRUE
         /\ New(SysOf(Tr.sys), Ev[1].t, Ev[1].pos, Ev[1].vel, Ev[1].idx)
Same == UNCHANGED <<svars, auxok>>
(* slopes and accelerations are given per unit of physical time *)
SlopeOK(s) == LET y == Slope IN /\ s.t = 1 /\ s.pos = y.pos /\ s.vel = y.vel /\ s.aux = y.aux /\ s.om = y.om /\ s.be = y.be
TNext == \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr
            /\ \/ E.e = "new" /\ IsPerm(E.idx) /\ Same
               \/ E.e = "D" /\ Drift(E.dt) /\ UNCHANGED auxok
               \/ E.e = "K" /\ Kick(E.dt) /\ UNCHANGED auxok
               \/ E.e = "P" /\ Pre /\ auxok' = TRUE
               \/ E.e = "O" /\ Post(E.idx) /\ auxok' = (auxok /\ idx' = idx)
                            /\ (sys.chain => E.greedy = E.idx)       \* the order the current positions ask for
               \/ E.e = "S" /\ Collect(E.on) /\ UNCHANGED auxok
               \/ E.e = "C" /\ ClearInc /\ UNCHANGED auxok
               \/ E.e = "L" /\ Load(E.y) /\ auxok' = TRUE
               \/ E.e = "V" /\ SlopeOK(E.s) /\ Same
               \/ E.e = "A" /\ E.acc = Total(pos, vel) /\ Same
            /\ Seen(E)
         \/ l > Len(Ev) /\ UNCHANGED <<svars, tr, l, auxok>>
TSpec == TInit /\ [][TNext]_<<svars, tr, l, auxok>>
=============================================================================
