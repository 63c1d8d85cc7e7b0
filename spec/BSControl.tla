------------------------------ MODULE BSControl ------------------------------
(* Order and step control of the Bulirsch-Stoer iterator.
   A macro step is attempted with 1, 2, 3, 5, ... substeps (levels 0, 1, 2, 3, ...), the results are extrapolated,
   and after each level k >= 1 the attempt may be accepted, rejected (the step size changes and everything starts
   over from the same state) or continued at the next level.
   Step ratios are fractions <<num, den>>; errors are integers in units of which One is exactly the tolerance. *)
EXTENDS Integers, Sequences, FiniteSets
One == 1024
CONSTANT Kdk                    \* TRUE: kick-drift-kick substeps (two extra evaluations per level)
Top == 7                        \* highest level
N == <<1, 2, 3, 5, 8, 12, 17, 25>>
n(k) == N[k + 1]
RECURSIVE Cost(_)
Cost(k) == n(k) + (IF Kdk THEN 2 ELSE 0) + (IF k = 0 THEN 0 ELSE Cost(k - 1))
Clamp(i) == IF i < 2 THEN 2 ELSE IF i > Top - 1 THEN Top - 1 ELSE i

VARIABLES rank,                 \* the level at which convergence is expected
          first                 \* no step has been accepted yet

Window(k) == first \/ k \in rank - 1 .. rank + 1
Converged(e) == e <= One
\* hopeless: even the remaining levels can not bring the error down
Hopeless(k, e) ==
  IF first THEN k = rank + 1
  ELSE IF k = rank - 1 THEN e > One * (n(k + 1) * n(k + 2)) * (n(k + 1) * n(k + 2))
  ELSE IF k = rank THEN e > One * n(k + 1) * n(k + 1)
  ELSE TRUE
Verdict(k, e) == IF ~Window(k) THEN "go"
                 ELSE IF Converged(e) THEN "accept"
                 ELSE IF Hopeless(k, e) THEN "reject" ELSE "go"
\* the level at which an attempt with errors e (a function on levels) ends
EndLevel(e) == CHOOSE k \in 1..rank + 1 : Verdict(k, e[k]) /= "go" /\ \A j \in 1..k - 1 : Verdict(j, e[j]) = "go"

\* work per unit step of level a below f/10 of that of level b; R are the ideal step ratios of the attempt
Cheaper(R, a, f, b) == Cost(a) * R[a][2] * R[b][1] * 10 < f * Cost(b) * R[b][2] * R[a][1]
NewRank(k, R, ok) ==
  IF first THEN IF ok THEN Clamp(k) ELSE rank
  ELSE IF k <= rank THEN
    IF k = 1 THEN 2             \* no estimate below level 1; two is the lowest rank anyway
    ELSE IF Cheaper(R, k - 1, 8, k) THEN Clamp(k - 1)
    ELSE IF Cheaper(R, k, 9, k - 1) /\ ok THEN Clamp(k + 1)
    ELSE Clamp(k)
  ELSE LET r == IF Cheaper(R, k - 2, 8, k - 1) THEN Clamp(k - 2) ELSE rank
       IN IF ok /\ Cheaper(R, k, 9, r) THEN Clamp(k) ELSE r
\* the ratio of the next step to this one, before the limiter
NewRatio(k, R, ok) ==
  IF first THEN R[k]
  ELSE LET r == NewRank(k, R, ok)
       IN IF r <= k THEN R[r] ELSE <<R[k][1] * Cost(k + 1), R[k][2] * Cost(k)>>

BInit == rank = Top - 1 /\ first = TRUE
\* one attempt: errors e, ideal step ratios R, ended at level k
Attempt(e, R, k, ok) ==
  /\ k = EndLevel(e) /\ ok = (Verdict(k, e[k]) = "accept")
  /\ rank' = NewRank(k, R, ok)
  /\ first' = (first /\ ~ok)
==============================================================================
