---------------------------- MODULE SymplecticMC ----------------------------
(* The arithmetic agrees with integers, and the leapfrog has order two with the textbook third order error. *)
EXTENDS Symplectic, FiniteSets
VARIABLES a, b, n
\* k/256 with k a moderate integer
Fix(k) == LET s == IF k < 0 THEN -k ELSE k
              m == [i \in 1..N |-> IF i = F + 1 THEN s \div 256 ELSE IF i = F THEN (s % 256) * 64 ELSE 0]
          IN IF k < 0 THEN Neg(m) ELSE m
R == {-700, -257, -256, -255, -100, -16, -1, 0, 1, 15, 16, 255, 256, 300, 999}
Init == a \in R /\ b \in R /\ n \in 1..10
Next == UNCHANGED <<a, b, n>>
Spec == Init /\ [][Next]_<<a, b, n>>
Sums == Add(Fix(a), Fix(b)) = Fix(a + b) /\ Sub(Fix(a), Fix(b)) = Fix(a - b)
Products == (a * b) % 256 = 0 => Mul(Fix(a), Fix(b)) = Fix((a * b) \div 256)
Quotients == /\ Small(Sub(Mul(Div(Fix(a), n), Fix(256 * n)), Fix(a)), 1)
             /\ a % n = 0 => Div(Fix(a), n) = Fix(a \div n)
\* drift 1/2, kick 1, drift 1/2 on all words of length <= 3
Half(w, q, x) == Apply(w, q, x, Powers(Fix(128), 1, 3, <<One>>))
Whole(w, q, x) == Apply(w, q, x, Powers(One, 1, 3, <<One>>))
Leap(w) == Residual(w, Half(w, Whole(w, Half(w, Start(w), 0), 1), 0))
Leapfrog == (a = 0 /\ b = 0 /\ n = 1) =>
            /\ \A w \in LyndonUpTo(2) : IsZero(Leap(w))
            /\ \A w \in Lyndon(3) : \E k \in {12, 24, -12, -24} : Small(Sub(Leap(w), IF k < 0 THEN Neg(Div(One, -k)) ELSE Div(One, k)), 1)
            /\ [k \in 1..6 |-> Cardinality(Lyndon(k))] = <<2, 1, 2, 3, 6, 9>>
=============================================================================
