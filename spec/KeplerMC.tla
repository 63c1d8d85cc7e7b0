----------------------------- MODULE KeplerMC -----------------------------
(* The two halves agree: elements put a body on the orbit they describe, and moving the body along *)
(* it keeps the orbit. All angles are right angles and the numbers chosen to be integers.            *)
EXTENDS Kepler, TLC
CONSTANT Flip
Right == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
p == 30
u == 16 * p
VARIABLES el, moves
Init == /\ moves = 0
        /\ el \in {e \in [p : {p}, w : {4}, k : {0, 1, 2, 4, 6, 8}, i : {<<1, 0>>, <<0, 1>>, <<-1, 0>>}, O : Right, om : Right, nu : Right] : Reach(e) > 0}
Move == moves < 2 /\ moves' = moves + 1 /\ \E n \in Right : el' = [el EXCEPT !.nu = n] /\ Reach(el') > 0
Spec == Init /\ [][Move]_<<el, moves>>
Turned == [el EXCEPT !.om = IF Flip THEN <<-el.om[1], -el.om[2]>> ELSE el.om]
r == (4 * p) \div Reach(el)
P == Mul(r, PosN(Turned))
V == VelN(Turned)
W == <<el.O[2] * el.i[2], -(el.O[1] * el.i[2]), el.i[1]>>
Length == Sq(P) = r * r
Momentum == Cross(P, V) = Mul(4 * p, W)
Energy == Energy2(r, u, V) = r * (el.k * el.k - 16)
Radial == LET d == Dot(P, V) IN el.k > 0 => (d > 0 <=> el.nu[2] > 0) /\ (d < 0 <=> el.nu[2] < 0)
Periapsis == Ecc(r, u, P, V) = Mul(4 * r * p * el.k, PosN([el EXCEPT !.nu = <<1, 0>>]))
c == [ci |-> S * el.i[1], si |-> S * el.i[2], cO |-> S * el.O[1], sO |-> S * el.O[2], co |-> S * el.om[1], so |-> S * el.om[2], cn |-> S * el.nu[1], sn |-> S * el.nu[2]]
Described == Oriented(c, r, u, P, V, 0)
(* the same point of the same orbit is described by no other orientation of a node that is defined *)
Kept == [][Cross(P', V') = Cross(P, V)]_<<el, moves>>
=============================================================================
