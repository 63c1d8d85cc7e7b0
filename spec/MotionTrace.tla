----------------------------- MODULE MotionTrace -----------------------------
(* Recorded runs: a leg takes the bodies from place to place of their orbit,   *)
(* forward or backward in time.                                                *)
EXTENDS Motion, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, place, clock
E == Traces[tr]
o == E.o
c == E.c
Near(a, b, k) == Abs(a - b) <= k
NearV(a, b, k) == \A i \in 1..3 : Near(a[i], b[i], k)
N == Len(E.role)
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Cross(a, b) == <<Mul(a[2], b[3]) - Mul(a[3], b[2]), Mul(a[3], b[1]) - Mul(a[1], b[3]), Mul(a[1], b[2]) - Mul(a[2], b[1])>>
Sq(a) == Mul(a[1], a[1]) + Mul(a[2], a[2]) + Mul(a[3], a[3])
(* the centre of the motion as body i has it *)
Centre(e, i) == Sub(e.x[i], In(Times(Pos(o, e.p), Seat(c, E.role[i])), E.f))
CentreV(e, i) == Sub(e.v[i], In(Times(Vel(o, e.p), Seat(c, E.role[i])), E.f))
X0 == [i \in 1..3 |-> S * E.X0[i]]
V0 == [i \in 1..3 |-> S * E.V0[i]]
Tau(e) == Time(o, e.p, e.turn) - Time(o, E.ev[1].p, E.ev[1].turn)
(* force: free; field: acceleration g/32 of everything; gyro: acceleration (g/32) x velocity of the centre *)
G(i) == Q(E.g[i], 32)
Carried(e, X, V, k) ==
  CASE E.force = "free"  -> NearV(X, [i \in 1..3 |-> X0[i] + E.V0[i] * Tau(e)], k) /\ NearV(V, V0, k)
    [] E.force = "field" -> /\ NearV(V, [i \in 1..3 |-> V0[i] + Mul(G(i), Tau(e))], k)
                            /\ NearV(X, [i \in 1..3 |-> X0[i] + E.V0[i] * Tau(e) + Mul(Mul(G(i), Tau(e)), Tau(e) \div 2)], 2 * k)
    [] E.force = "gyro"  -> /\ NearV(Sub(V, V0), Cross(<<G(1), G(2), G(3)>>, Sub(X, X0)), k)
                            /\ Near(Sq(V), Sq(V0), 4 * k)
(* that of the formulas here, in proportion to the size *)
Rounding(p) == 5 + (2 * (Abs(Pos(o, p)[1]) + Abs(Pos(o, p)[2]) + Abs(Vel(o, p)[1]) + Abs(Vel(o, p)[2]))) \div S
At(e) == /\ e.p \in 1..Places(o)
         /\ Near(e.t, S * E.t0 + Tau(e), 20)
         /\ Len(e.x) = N /\ Len(e.v) = N
         /\ LET X == Centre(e, 1)  V == CentreV(e, 1)  k == Rounding(e.p) + IF l = 1 THEN 0 ELSE E.tol
            IN /\ \A i \in 2..N : NearV(Centre(e, i), X, 2 * k) /\ NearV(CentreV(e, i), V, 2 * k)
               /\ Carried(e, X, V, IF E.force = "free" THEN k ELSE k + 40)
(* the numbers the method promises: digits of the mantissa, compensated sums *)
Kind == E.digits = (IF E.ext THEN 64 ELSE 53) /\ E.comp = E.plus
(* the step of a method in regularised time goes with the attraction, in plain time it is the time *)
Distance(p) == CASE o.type = "ellipse"   -> Half(o, 5 * o.ed - o.en * Turns[p][1], 5 * o.ed)
                 [] o.type = "hyperbola" -> Half(o, o.en * Bends[p][1] - 24 * o.ed, 24 * o.ed)
                 [] o.type = "parabola"  -> Half(o, 4 + Slopes[p] * Slopes[p], 4)
Pace(e) == IF E.regular THEN Near(Mul(e.scale, Distance(e.p)), Distance(E.ev[1].p), 30 * E.tol + e.scale \div 10000 + Distance(e.p) \div 10000)
           ELSE e.scale = S
(* halving the step divides the error by two to the order: binary logarithms in thousandths *)
Converges == \A i \in 1..Len(E.slopes) : Near(E.slopes[i], 1000 * E.order, 900)
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ place = <<0, 0>> /\ clock = 0
Leg == LET e == E.ev[l] IN (At(e) /\ Pace(e)) = TRUE /\ place' = <<e.p, e.turn>> /\ clock' = e.t
TNext == \/ /\ l <= Len(E.ev) /\ ((l = 1 => Kind) = TRUE) /\ Leg /\ l' = l + 1 /\ tr' = tr
         \/ /\ l = 1 /\ Len(E.ev) = 0 /\ Converges = TRUE /\ l' = 2 /\ UNCHANGED <<tr, place, clock>>
         \/ /\ l > Len(E.ev) /\ (Len(E.ev) = 0 => l > 1) /\ UNCHANGED <<tr, l, place, clock>>
TSpec == TInit /\ [][TNext]_<<tr, l, place, clock>>
=============================================================================
