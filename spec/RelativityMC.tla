---------------------------- MODULE RelativityMC ----------------------------
(* The equations of motion agree with what is known of them independently:     *)
(* relative motion of equal masses in their centre of mass frame at every      *)
(* order, test bodies in the Schwarzschild field (first and second order), the *)
(* conserved first order momentum; rotations, exchange and time reversal.      *)
EXTENDS Relativity, TLC
CONSTANTS Vs, Ms, Ds
VARIABLES d, vi, vj, mi, mj
vars == <<d, vi, vj, mi, mj>>
DD == {<<1, 0, 0>>, <<0, 0, -2>>, <<1, -2, 2>>}
VV == {-1, 0, 2}
VT == {-2, -1, 0, 1, 2}
V3 == {<<a, b, c>> : a \in Vs, b \in Vs, c \in Vs}
Len3(x) == Root(Dot(x, x))
r == Len3(d)
Init == d \in Ds /\ vi \in V3 /\ vj \in V3 /\ mi \in Ms /\ mj \in Ms
(* quarter turns and reflections of the frame, exchange of the names, reversal of the motion *)
Turn(a) == <<a[2], a[3], a[1]>>
Flip(a) == <<-a[1], a[2], a[3]>>
Next == \/ d' = Turn(d) /\ vi' = Turn(vi) /\ vj' = Turn(vj) /\ UNCHANGED <<mi, mj>>
        \/ d' = Flip(d) /\ vi' = Flip(vi) /\ vj' = Flip(vj) /\ UNCHANGED <<mi, mj>>
        \/ vi' = Scl(-1, vi) /\ vj' = Scl(-1, vj) /\ UNCHANGED <<d, mi, mj>>
Shallow == TLCGet("level") < 2
Spec == Init /\ [][Next]_vars
A1 == PN1(mi, mj, d, r, vi, vj)
B1 == PN1(mj, mi, Scl(-1, d), r, vj, vi)
A2 == PN2(mi, mj, d, r, vi, vj)
A25 == PN25(mi, mj, d, r, vi, vj)
(* equal masses m/2 in the centre of mass frame, w = 2 vi: Kidder (1995), Blanchet (2014) with eta = 1/4.  m = 2 mi *)
CoM == mi = mj /\ vj = Scl(-1, vi)
M == 2 * mi
w == Scl(2, vi)
ww == Dot(w, w)
u == Dot(d, w)         \* r rdot
Relative1 == \* -(m/r^2) { n [(1+3 eta) v^2 - 2(2+eta) m/r - 3/2 eta rdot^2] - 2 (2-eta) rdot v }, times 16 r^5
  Scl(-M, Lin(28 * ww * r * r - 72 * M * r - 6 * u * u, d, -56 * u * r * r, w))
Relative2 == \* times 128 r^7
  Scl(-M, Lin(1848 * M * M * r * r + 64 * ww * ww * r * r * r * r + 15 * u * u * u * u - 96 * ww * u * u * r * r - 192 * ww * M * r * r * r - 1072 * M * u * u * r, d,
              -64 * u * (4 * ww * r * r * r * r) + 944 * u * M * r * r * r + 168 * u * u * u * r * r, w))
Relative25 == \* times 15 r^6
  Scl(M * M, Lin(u * (18 * ww * r + 34 * M), d, -(6 * ww * r + 18 * M) * r * r, w))
EqualMass == CoM => /\ Scl(16, A1) = Relative1
                    /\ Scl(32, A2) = Relative2
                    /\ Scl(2, A25) = Relative25
(* a test body (mi -> 0) about a body at rest: m/r^2 { n [4m/r - v^2] + 4 rdot v }, m/r^2 { n [-9 m^2/r^2 + 2 m rdot^2/r] - 2 m/r rdot v } *)
Test == LET p == Dot(d, vi) IN
  /\ PN1(0, mj, d, r, vi, <<0, 0, 0>>) = Scl(mj, Lin(2 * r * r * (-Dot(vi, vi)) + 8 * mj * r, d, 8 * r * r * p, vi))
  /\ PN2(0, mj, d, r, vi, <<0, 0, 0>>) = Scl(mj, Lin(-72 * mj * mj * r * r + 16 * mj * r * p * p, d, -16 * mj * r * r * r * p, vi))
  /\ PN25(0, mj, d, r, vi, vj) = <<0, 0, 0>>
(* P = sum m v + c^-2 { sum m v^2/2 v - m1 m2/(2r) [v1 + v2 + n n.(v1 + v2)] } is constant to the first order; times 2 r^5 *)
Momentum == LET wd == Dot(d, Sub(vi, vj))  s == Add(vi, vj)  W == Sub(vi, vj)
                Own(m, mo, v, e) == \* d/dt (m v^2/2 v), times 2 r^5, acceleration -mo e/r^3
                  Scl(-m * mo * r * r, Lin(2 * Dot(v, e), v, Dot(v, v), e))
                \* d/dt of -(1/2r)(s + d (d.s)/r^2), ds/dt = (mi - mj) d / r^3   (times 2 r^5)
                k == mi - mj
                ds == Dot(d, s)
                J == Lin(1, Scl(wd * r * r, s), -k * r, d)                                                        \* from s/r
                I == Lin(3 * wd * ds - r * r * (Dot(W, s)) - k * r, d, -r * r * ds, W)  \* from d (d.s)/r^3
            IN Add(Add(Scl(mi, A1), Scl(mj, B1)),
                   Add(Add(Own(mi, mj, vi, d), Own(mj, mi, vj, Scl(-1, d))), Scl(mi * mj, Add(J, I)))) = <<0, 0, 0>>
Equivariant == [][ /\ (d' = Turn(d) /\ vi' = Turn(vi) /\ vj' = Turn(vj)) => A1' = Turn(A1) /\ A2' = Turn(A2) /\ A25' = Turn(A25)
                   /\ (d' = d /\ vi' = Scl(-1, vi) /\ vj' = Scl(-1, vj)) => A1' = A1 /\ A2' = A2 /\ A25' = Scl(-1, A25) ]_vars
=============================================================================
