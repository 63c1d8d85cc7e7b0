--------------------------- MODULE CompensatedMC ---------------------------
(* The algorithms themselves in a tiny arithmetic of P binary digits with round  *)
(* to nearest even, all sequences of terms up to a length. Plain summation breaks *)
(* the bound, the three compensated ones keep it.                                     *)
EXTENDS Compensated, TLC
CONSTANTS P, R, Start, N, Algo
RECURSIVE Ulp(_)
Ulp(x) == IF Abs(x) < Pow2(P) THEN 1 ELSE 2 * Ulp(Abs(x) \div 2)
Rnd(x) == LET u == Ulp(x)
              q == Abs(x) \div u
              m == Abs(x) % u
              k == IF 2 * m > u \/ (2 * m = u /\ q % 2 = 1) THEN q + 1 ELSE q
          IN IF x < 0 THEN -(k * u) ELSE k * u
Plus(x, y) == Rnd(x + y)
Minus(x, y) == Rnd(x - y)
VARIABLES r, e, f, s, n    \* f: compensation of the compensation
Init == r = Start /\ e = 0 /\ f = 0 /\ s = [S |-> Start, A |-> Start, b |-> 0] /\ n = 0
Kahan(x) == LET add == Minus(x, e)
                sum == Plus(r, add)
            IN r' = sum /\ e' = Minus(Minus(sum, r), add)
Neumaier(x) == LET add == Plus(x, e)
                   sum == Plus(r, add)
               IN r' = sum /\ e' = IF Abs(add) < Abs(r) THEN Plus(Minus(r, sum), add) ELSE Plus(Minus(add, sum), r)
(* what is lost when b is added to a and the sum is t *)
Lost(a, b, t) == IF Abs(b) < Abs(a) THEN Plus(Minus(a, t), b) ELSE Plus(Minus(b, t), a)
Klein(x) == LET c == Plus(e, f)
                add == Plus(x, c)
                sum == Plus(r, add)
            IN r' = sum /\ e' = Lost(r, add, sum) /\ f' = Lost(x, c, add)
Plain(x) == r' = Plus(r, x) /\ e' = 0
Step(x) == n < N /\ n' = n + 1 /\ s' = After(s, "add", x, 0)
           /\ CASE Algo = "klein" -> Klein(x) [] Algo = "kahan" -> Kahan(x) /\ f' = 0 [] Algo = "neumaier" -> Neumaier(x) /\ f' = 0 [] Algo = "plain" -> Plain(x) /\ f' = 0
Next == \E x \in {-R, -1, 1, 3, R} : Step(x)
Spec == Init /\ [][Next]_<<r, e, f, s, n>>
Bound == Within(r, s.S, s.A \div Pow2(P - 1))
Representable == Rnd(r) = r /\ Rnd(e) = e /\ Rnd(f) = f
=============================================================================
