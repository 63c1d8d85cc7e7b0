---------------------------- MODULE ScatteringMC ----------------------------
(* The formulas against what they are for. Bodies of a cluster are permuted and carried along: the    *)
(* inner energy does not notice. At the critical velocity the total energy vanishes, above it is       *)
(* positive. At the largest impact parameter the closest approach, where all velocity is transverse,   *)
(* is the one asked for; below it is closer. Where one says tidal radius, the tide of one cluster on the other is f. *)
EXTENDS Scattering, TLC
CONSTANTS MaxM, MaxV
VARIABLES c, boost, e0
vars == <<c, boost, e0>>
Places == <<<<0, 0, 0>>, <<3, 0, 0>>, <<0, 4, 0>>>>
Clusters == {[i \in 1..n |-> [m |-> m[i], r |-> 1, x |-> Places[i], v |-> <<v[i], w[i], 0>>]] : n \in {1}, m \in [1..1 -> 1..MaxM], v \in [1..1 -> 0..MaxV], w \in [1..1 -> 0..1]}
   \cup {[i \in 1..2 |-> [m |-> m[i], r |-> 1, x |-> Places[i], v |-> <<v[i], w[i], 0>>]] : m \in [1..2 -> 1..MaxM], v \in [1..2 -> -MaxV..MaxV], w \in [1..2 -> 0..1]}
Init == c \in Clusters /\ boost = <<0, 0, 0>> /\ e0 = Inner24M(c)
Boost == \E k \in 1..3, s \in {-1, 1} : /\ Abs(boost[k] + s) <= 2 /\ boost' = [boost EXCEPT ![k] = @ + s]
            /\ c' = [i \in 1..Len(c) |-> [c[i] EXCEPT !.v[k] = @ + s]] /\ e0' = e0
Swap == Len(c) = 2 /\ c' = <<c[2], c[1]>> /\ UNCHANGED <<boost, e0>>
Spec == Init /\ [][Boost \/ Swap]_vars
SameEnergy == Inner24M(c) = e0
(* inner kinetic energy never is negative; two bodies: half the reduced mass times the velocity difference squared *)
Pair == Len(c) = 2 => Inner24M(c) + Mass(c) * ((24 * c[1].m * c[2].m) \div Dist(c[1], c[2])) = 12 * c[1].m * c[2].m * Sq(Minus(c[1].v, c[2].v))
(*------ constant facts ------*)
(* b v = rp vp with vp^2 = v^2 + 2 M / rp, in quarters *)
Closest == \A M \in 1..9, v2 \in 1..8, rp \in 1..12, rp2 \in 1..12 :
   LET b2v2(r) == r * r * v2 * v2 + 8 * M * r                    \* 4 b^2 v^2 from the formula
       q(r) == r * r * v2 * v2 + 8 * M * r                        \* 4 rp^2 vp^2
   IN /\ b2v2(rp) = q(rp) /\ (rp < rp2 <=> b2v2(rp) < b2v2(rp2))
      /\ Near(BMax2(M, v2, <<rp, 1>>) \div 100, (100 * b2v2(rp)) \div (v2 * v2), 1)
(* total energy e1/(24 m1) + e2/(24 m2) + m1 m2 V2 / (2 (m1 + m2)) vanishes for V2 = Critical2 *)
Threshold == \A m1 \in 1..4, m2 \in 1..4, E1 \in -3..0, E2 \in -3..0 : E1 + E2 < 0 =>
   LET X == Critical2(m1, m2, 24 * m1 * E1, 24 * m2 * E2) IN Near(m1 * m2 * X, -20000 * (E1 + E2) * (m1 + m2), m1 * m2)
Tides == \A M1 \in {1, 2, 4, 8}, k \in 1..4, R \in 1..3 : Tidal(1, k * k * k, M1, M1, R, R) = <<4 * k * R, 4>> /\ Tidal(1, k * k * k, 8 * M1, M1, 1, R) = <<8 * k * R, 4>>
   /\ Tidal(1, k * k * k, 8 * M1, M1, 1, R) = Tidal(1, k * k * k, M1, 8 * M1, R, 1)
ASSUME Closest
ASSUME Threshold
ASSUME Tides
=============================================================================
