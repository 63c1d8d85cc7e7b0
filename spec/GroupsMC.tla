------------------------------ MODULE GroupsMC ------------------------------
(* The laws that make these definitions the right ones, on small systems:        *)
(* Koenig's theorems, and that a rigid motion keeps what it should keep.           *)
EXTENDS Groups, TLC
CONSTANT W
m == <<1, 1, 2, 4>>
Gs == {<<1, 2>>, <<3, 1, 2>>, <<1, 2, 3, 4>>, <<3>>}
Some == {<<0, 0, 0>>, <<W, 0, 0>>, <<0, 3, 4>>, <<-W, 1, 0>>, <<1, -1, W>>, <<2, 0, -2>>}
VARIABLES x, v, g, c, done
Init == /\ x \in {<<a, b, c3, <<0, 0, 4>>>> : a, b, c3 \in Some} /\ v \in {<<a, b, <<1, 1, 0>>, <<0, -1, 2>>>> : a, b \in Some}
        /\ g \in {k \in Gs : OnGrid(m, x, k) /\ OnGrid(m, v, k)} /\ c \in {<<5, 0, -3>>, Zero} /\ done = FALSE
Move == ~done /\ done' = TRUE /\ x' = Moved(m, x, g, c) /\ v' = Moved(m, v, g, Zero) /\ UNCHANGED <<g, c>>
Spec == Init /\ [][Move]_<<x, v, g, c, done>>
Koenig == OnGrid(m, v, g) => TwiceKin(m, v, g) = Inner2(m, v, g) + Mass(m, g) * Sq(Centre(m, v, g))
KoenigL == (OnGrid(m, x, g) /\ OnGrid(m, v, g)) =>
   LET X == Moved(m, x, g, Zero) V == Moved(m, v, g, Zero) IN Isolated(m, x, v, g) = Mul(Mass(m, g), AngMom(m, X, V, g))
Arrived == done => Centre(m, x, g) = c /\ Moment(m, v, g) = Zero /\ TwiceKin(m, v, g) = Inner2(m, v, g)
Rigid == [][\A i, j \in Range(g) : Dist2(x', i, j) = Dist2(x, i, j)]_<<x, v, done>>
Others == [][\A i \in (1..4) \ Range(g) : x'[i] = x[i] /\ v'[i] = v[i]]_<<x, v, done>>
=============================================================================
