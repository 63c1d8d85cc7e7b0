----------------------------- MODULE BSControlMC -----------------------------
(* All decisions of the Bulirsch-Stoer controller: errors and ideal step ratios of every attempt are arbitrary. *)
EXTENDS BSControl, TLC
CONSTANTS Errs, Rs              \* error values , ratios (eighths)
VARIABLES tries, last           \* attempts since the last accepted step; what happened last
mvars == <<rank, first, tries, last>>
\* only the levels around the window influence the decision: the others keep fixed values
Lv == 1..Top
MInit == BInit /\ tries = 0 /\ last = <<"none", 0, 4, <<1, 1>>, 6>>
Near == IF first THEN Lv ELSE {k \in Lv : k >= rank - 1 /\ k <= rank + 1}
\* during the first step only the ratio of the level it ends at matters
Try == \E er \in [Near -> IF first THEN {One - 1, One + 1} ELSE Errs],
         rr \in IF first THEN {[k \in Lv |-> r] : r \in Rs} ELSE [{k \in Near : k >= rank - 1} -> Rs] :
         LET e == [k \in Lv |-> IF k \in Near THEN er[k] ELSE 99999999]
             R == [k \in Lv |-> IF k \in DOMAIN rr THEN <<rr[k], 8>> ELSE <<8, 8>>]
             k == EndLevel(e)
             ok == Verdict(k, e[k]) = "accept"
         IN /\ Attempt(e, R, k, ok)
            /\ last' = <<IF ok THEN "accept" ELSE "reject", k, e[k], NewRatio(k, R, ok), rank>>
            /\ tries' = IF ok THEN 0 ELSE IF tries < 3 THEN tries + 1 ELSE 3
MSpec == MInit /\ [][Try]_mvars
\* the window never leaves the table
RankInTable == rank \in 2..Top - 1
LevelInTable == last[2] \in 0..Top /\ (last[1] /= "none" => last[2] >= 1)
\* a step is accepted exactly when its error is within the tolerance, and rejected only when it is not
AcceptedWithin == (last[1] = "accept" => last[3] <= One) /\ (last[1] = "reject" => last[3] > One)
\* an accepted step changes the rank by at most one level beyond where it converged, a rejected one never raises it
RankMoves == [][LET k == last'[2] IN
                  /\ (last'[1] = "accept" => rank' \in {Clamp(k - 2), Clamp(k - 1), Clamp(k), Clamp(k + 1), rank})
                  /\ (last'[1] = "reject" => rank' <= rank \/ rank' = 2)]_mvars
PositiveRatio == last[4][1] > 0
FirstOnlyOnce == [][~first => ~first']_mvars
RejectedKeepsFirst == [][last'[1] = "reject" => first' = first]_mvars
==============================================================================
