------------------------------ MODULE UnitsMC ------------------------------
(* A quantity of one unit is converted from unit to unit; the formulas agree  *)
(* with other forms of the laws behind them.                                  *)
EXTENDS Units
CONSTANT Steps
VARIABLES from, at, x, n
vars == <<from, at, x, n>>
Names == DOMAIN Unit
Same(a) == {b \in Names : Unit[b].d = Unit[a].d}
Init == from \in Names /\ at = from /\ x = Dec(1) /\ n = 0
Convert == /\ n < Steps
           /\ \E b \in Same(at) : at' = b /\ x' = Quot(x, Ratio(b, at))
           /\ n' = n + 1 /\ UNCHANGED from
Next == Convert
Spec == Init /\ [][Next]_vars
\* whatever the way
Consistent == Close(x, Ratio(from, at), 4 * (n + 1))
\* there and back
Inverse == Close(Quot(Ratio(from, at), Quot(Dec(1), Ratio(at, from))), Dec(1), 4)

Si(a) == Unit[a].v
\* third law of Kepler, in SI: GM year^2 = 4 pi^2 AU^3
Kepler == LET gm == Times(Const.Gsi.v, Si("Ms")) IN
          Close(Times(gm, Times(Si("year"), Si("year"))), Times(Times(<<39478418, 1>>, Si("AU")), Times(Si("AU"), Si("AU"))), 30000)
Light == Close(Quot(Quot(Si("AU"), Si("km")), Const.C.v), Const.light_time.v, 20)
Parsec == Close(Ratio("PC", "AU"), Quot(Dec(648000), Const.pi.v), 10)
Velocity == Close(Quot(Quot(Times(Const.pi.v, Times(Dec(2), Si("AU"))), Si("year")), Si("km")), Const.kms_in_code.v, 30000)
Boltzmann == Close(Quot(Const.kB.v, Si("mp")), Const.kB_on_mp.v, 100)
\* twice G M / c^2
Hole == LET gm == Times(Const.Gsi.v, Si("Ms")) IN
        Close(Radius("BH", 1, 1), Quot(Quot(Times(Dec(2), gm), Times(Times(Const.C.v, Dec(1000)), Times(Const.C.v, Dec(1000)))), Dec(1000)), 30000)
Laws == Kepler /\ Light /\ Parsec /\ Velocity /\ Boltzmann /\ Hole
        /\ Close(Ratio("Ms", "Me"), Dec(332946), 15000) /\ Close(Ratio("Mj", "Me"), Norm(31780000, 2), 25000)
        /\ Close(Times(Si("deg"), Dec(180)), Const.pi.v, 20000)
\* more massive stars are larger, white dwarfs smaller, and stars of their mass
Less(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Stars == \A k \in 1..6, d \in 1..3 : Less(Radius("STAR", k, d), Radius("STAR", k + 1, d)) /\ Less(Radius("WD", k + 1, d), Radius("WD", k, d))
                                     /\ Less(Radius("BH", k, d), Radius("NS", k, d)) = (k * 1000 < d * 3386)
\* as it is written with the period of the outer orbit: T = Pout^2/Pin (mi+m3)/m3 (1-e^2)^(3/2)
Outer == \A mi \in 1..4, t \in 1..3, m3 \in 1..3, e5 \in {0, 3, 4} : \A a2 \in {10, 20} :
            LET a1 == mi * t * t  T3 == Kozai(mi, a1, a2, e5) IN     \* T m3 a1^3 125
            \* Pout^2 (mi+m3) = a2^3, so that T m3 Pin = a2^3 (1-e^2)^(3/2)
            (T3 \div Cube(a1)) = ((Cube(a2) * Cube(C5(e5))) \div (mi * Cube(t))) 
=============================================================================
