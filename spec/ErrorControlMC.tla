--------------------------- MODULE ErrorControlMC ---------------------------
(* Properties of the estimators and the controller themselves over small domains: *)
(* the three estimates agree when all weights are equal and only one entry is off, *)
(* the worst offender bounds the largest ratio from above, the rms from above and   *)
(* within sqrt(n); estimates grow with the differences; an accepted error (all      *)
(* entries within their own tolerance) is exactly estimate <= 1 of the worst        *)
(* offender; a smaller error never proposes a smaller step, also after clamping.    *)
EXTENDS ErrorControl
Vals == -2..2
Vecs == [1..2 -> Vals]
VARIABLES a, b, c, at, rt
Init == /\ a \in Vecs /\ b \in Vecs /\ c \in Vecs /\ at \in {1, 2} /\ rt \in {0, 1}
Next == UNCHANGED <<a, b, c, at, rt>>
Spec == Init /\ [][Next]_<<a, b, c, at, rt>>
K == 12
K2 == 144
W(kind) == Estimate(kind, "3", at, rt, a, b, c, K)
R == Estimate("rms", "3", at, rt, a, b, c, K2)
Wt == Weight("wo", "3", at, rt, a, b)
WorstIsTolerance == (W("wo") <= K) <=> \A i \in 1..2 : Abs(c[i] - b[i]) <= Wt[i]
RmsBounds == /\ R <= 2 * W("wo") * W("wo")          \* mean square <= max square
             /\ R >= W("wo") * W("wo")
SameWeights == (Wt[1] = Wt[2] /\ c[2] = b[2]) => W("wo") * W("wo") = R
Symmetric == Estimate("wo", "3", at, rt, a, b, c, K) = Estimate("wo", "3", at, rt, [i \in 1..2 |-> -a[i]], [i \in 1..2 |-> -b[i]], [i \in 1..2 |-> -c[i]], K)
ZeroDiff == (b = c) <=> W("wo") = 0
TwoArgs == Estimate("wo", "2", at, rt, a, c, c, K) = Estimate("wo", "3", at, rt, a, [i \in 1..2 |-> 0], c, K)
RatioBelowWorst == Estimate("mr", "2", at, rt, a, c, c, K) <= Estimate("wo", "2", at, rt, a, c, c, K)
Ks == {x \in -6..6 : x # 0}
Larger(k, kk) == IF k > 0 THEN kk > k ELSE kk > 0 \/ (kk < 0 /\ kk > k)
Monotone == \A k, kk \in Ks : (Factor(k, 1) < Factor(kk, 1) => Clamp(Factor(k, 1), 9000, 144000) <= Clamp(Factor(kk, 1), 9000, 144000))
Inv == WorstIsTolerance /\ RmsBounds /\ SameWeights /\ Symmetric /\ ZeroDiff /\ TwoArgs /\ RatioBelowWorst /\ Monotone
=============================================================================
