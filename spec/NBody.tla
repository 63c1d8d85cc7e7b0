------------------------------- MODULE NBody -------------------------------
(* The particle systems as one machine.  Whatever the representation           *)
(* (Cartesian or chain, plain or regularised) a system is the masses, physical *)
(* time, positions, velocities, auxiliary velocities, the two regularisation   *)
(* accumulators (omega, binding energy) and the increments collected since the *)
(* last clearing.  drift and kick act on those; representation changes do not. *)
(* Forces are integer valued mocks plugged into the real systems:              *)
(*   internal      a_i = sum_j m_j (x_j - x_i)                                 *)
(*   "field"       a_i = (1,-2,3) * (i+1)         (external, not vel. dep.)    *)
(*   "trap"        a_i = -x_i                     (external, not vel. dep.)    *)
(*   "drag"        a_i = -v_i                     (external, velocity dep.)    *)
(*   "shear"       a_i = sum_j m_j (v_j - v_i)    (external, velocity dep.)    *)
(* Particle indices are 1..N here, 0..N-1 in the code.                         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  sys,    \* [chain: BOOLEAN, regu: "plain"|"LogH"|"TTL"|"None", forces: set of names, m: masses]
  t, pos, vel, aux,
  om, be, \* changes of omega and of the binding energy since construction
  idx,    \* chain order (identity for Cartesian systems)
  inc,    \* collected increments [t, pos, vel, aux, om, be], the vectors in the representation of the system
  sync    \* increments are being collected
svars == <<sys, t, pos, vel, aux, om, be, idx, inc, sync>>

N == Len(sys.m)
Part == 1..N
Zero == <<0, 0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scl(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VAdd(A, B) == [i \in Part |-> Add(A[i], B[i])]
VScl(k, A) == [i \in Part |-> Scl(k, A[i])]
Zeros == [i \in Part |-> Zero]
RECURSIVE SumV(_, _)
SumV(f, n) == IF n = 0 THEN Zero ELSE Add(f[n], SumV(f, n - 1))
RECURSIVE SumS(_, _)
SumS(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumS(f, n - 1)
Power(v, a) == SumS([i \in Part |-> sys.m[i] * Dot(v[i], a[i])], N)      \* sum m v.a
Twice(v)    == SumS([i \in Part |-> sys.m[i] * Dot(v[i], v[i])], N)      \* 2 T

VelDep == sys.forces \cap {"drag", "shear"} # {}
ExtIndep == sys.forces \cap {"field", "trap"} # {}
HasRegu == sys.regu # "plain"

(* chain coordinates: differences along the chain, then the first link's own coordinate *)
ToChain(A, ix)   == [k \in Part |-> IF k = N THEN A[ix[1]] ELSE Sub(A[ix[k + 1]], A[ix[k]])]
Place(ix, i)     == CHOOSE k \in Part : ix[k] = i
RECURSIVE Walk(_, _)
Walk(C, k)       == IF k = 1 THEN C[N] ELSE Add(Walk(C, k - 1), C[k - 1])
FromChain(C, ix) == [i \in Part |-> Walk(C, Place(ix, i))]
IsPerm(ix)       == Len(ix) = N /\ \A i \in Part : \E k \in Part : ix[k] = i
Rep(A)           == IF sys.chain THEN ToChain(A, idx) ELSE A
UnRep(A)         == IF sys.chain THEN FromChain(A, idx) ELSE A

Attract(A) == [i \in Part |-> SumV([j \in Part |-> Scl(sys.m[j], Sub(A[j], A[i]))], N)]
Newton(x) == Attract(x)
Ext(f, x, v) == CASE f = "field" -> [i \in Part |-> Scl(i, <<1, -2, 3>>)]
                  [] f = "trap"  -> VScl(-1, x)
                  [] f = "drag"  -> VScl(-1, v)
                  [] f = "shear" -> Attract(v)
RECURSIVE SumF(_, _, _)
SumF(S, x, v) == IF S = {} THEN Zeros
                 ELSE LET f == CHOOSE g \in S : TRUE IN VAdd(Ext(f, x, v), SumF(S \ {f}, x, v))
Indep(x)  == SumF(sys.forces \cap {"field", "trap"}, x, vel)
Dep(x, v) == SumF(sys.forces \cap {"drag", "shear"}, x, v)
Total(x, v) == VAdd(Newton(x), VAdd(Indep(x), Dep(x, v)))

NoInc == [t |-> 0, pos |-> Zeros, vel |-> Zeros, aux |-> Zeros, om |-> 0, be |-> 0]
OmRate(v, x)  == IF sys.regu = "TTL" THEN Power(v, Newton(x)) ELSE 0
BeRate(v, ae) == IF sys.regu = "LogH" THEN -Power(v, ae) ELSE 0

(* dt: the physical time covered *)
Drift(dt) ==
  /\ t' = t + dt
  /\ pos' = VAdd(pos, VScl(dt, vel))
  /\ inc' = IF sync THEN [inc EXCEPT !.t = @ + dt, !.pos = VAdd(@, VScl(dt, Rep(vel)))] ELSE inc
  /\ UNCHANGED <<sys, vel, aux, om, be, idx, sync>>

KickPlain(dt) ==
  LET h == dt \div 2
      ai == Indep(pos)
      a  == VAdd(Newton(pos), ai)
      v2 == VAdd(vel, VScl(dt, a))
      dom == h * OmRate(vel, pos) + h * OmRate(v2, pos)
      dbe == h * BeRate(vel, ai) + h * BeRate(v2, ai)
  IN /\ vel' = v2 /\ om' = om + dom /\ be' = be + dbe
     /\ inc' = IF sync THEN [inc EXCEPT !.vel = VAdd(@, VScl(dt, Rep(a))), !.om = @ + dom, !.be = @ + dbe] ELSE inc
     /\ UNCHANGED <<sys, t, pos, aux, idx, sync>>
(* velocity dependent: half a kick of the velocity (force at the auxiliary velocity), a whole kick of the
   auxiliary velocity (force at the velocity), another half kick of the velocity *)
KickSplit(dt) ==
  LET h == dt \div 2
      a0 == VAdd(Newton(pos), Indep(pos))
      a1 == VAdd(a0, Dep(pos, aux))
      v1 == VAdd(vel, VScl(h, a1))
      d2 == Dep(pos, v1)
      a2 == VAdd(a0, d2)
      w1 == VAdd(aux, VScl(dt, a2))
      dom == dt * OmRate(v1, pos)
      dbe == dt * BeRate(v1, VAdd(Indep(pos), d2))
      a3 == VAdd(a0, Dep(pos, w1))
      v2 == VAdd(v1, VScl(h, a3))
  IN /\ vel' = v2 /\ aux' = w1 /\ om' = om + dom /\ be' = be + dbe
     /\ inc' = IF sync THEN [inc EXCEPT !.vel = VAdd(@, VAdd(VScl(h, Rep(a1)), VScl(h, Rep(a3)))),
                                        !.aux = VAdd(@, VScl(dt, Rep(a2))), !.om = @ + dom, !.be = @ + dbe] ELSE inc
     /\ UNCHANGED <<sys, t, pos, idx, sync>>
Kick(dt) == IF VelDep THEN KickSplit(dt) ELSE KickPlain(dt)

Pre == /\ aux' = IF VelDep THEN vel ELSE aux
       /\ UNCHANGED <<sys, t, pos, vel, om, be, idx, inc, sync>>
(* re-ordering the chain changes nothing observable; increments are only meaningful within one order,
   and the auxiliary velocity is only defined again after the next Pre *)
Post(ix) == /\ idx' = IF sys.chain THEN ix ELSE idx
            /\ IsPerm(idx')
            /\ UNCHANGED <<sys, t, pos, vel, aux, om, be, inc, sync>>
Collect(b) == sync' = b /\ UNCHANGED <<sys, t, pos, vel, aux, om, be, idx, inc>>
ClearInc   == inc' = NoInc /\ UNCHANGED <<sys, t, pos, vel, aux, om, be, idx, sync>>

(* the flat state array *)
Image == [t |-> t, pos |-> Rep(pos), vel |-> Rep(vel), aux |-> IF VelDep THEN Rep(aux) ELSE <<>>,
          om |-> IF HasRegu THEN om ELSE 0, be |-> IF HasRegu THEN be ELSE 0]
Load(y) == /\ t' = y.t /\ pos' = UnRep(y.pos) /\ vel' = UnRep(y.vel)
           /\ aux' = IF VelDep THEN UnRep(y.aux) ELSE aux
           /\ om' = (IF HasRegu THEN y.om ELSE om) /\ be' = (IF HasRegu THEN y.be ELSE be)
           /\ UNCHANGED <<sys, idx, inc, sync>>
(* the derivative with respect to physical time *)
Slope == LET a == Rep(Total(pos, vel))
             e == VAdd(Indep(pos), Dep(pos, vel))
         IN [pos |-> Rep(vel), vel |-> a, aux |-> IF VelDep THEN a ELSE <<>>,
             om |-> IF HasRegu THEN OmRate(vel, pos) ELSE 0, be |-> IF HasRegu THEN BeRate(vel, e) ELSE 0]

New(s, t0, x, v, ix) ==
  /\ sys = s /\ t = t0 /\ pos = x /\ vel = v /\ aux = v /\ om = 0 /\ be = 0 /\ idx = ix
  /\ inc = [t |-> 0, pos |-> [i \in 1..Len(s.m) |-> <<0, 0, 0>>], vel |-> [i \in 1..Len(s.m) |-> <<0, 0, 0>>],
            aux |-> [i \in 1..Len(s.m) |-> <<0, 0, 0>>], om |-> 0, be |-> 0]
  /\ sync = FALSE
=============================================================================
