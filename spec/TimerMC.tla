------------------------------ MODULE TimerMC ------------------------------
(* Against the history: the time a watch shows is the time during which it ran since it was last reset,  *)
(* less intervals that a second start cut off.                                                             *)
EXTENDS Timer, TLC, FiniteSets
CONSTANTS MaxNow, MaxOps
VARIABLES ran, n     \* ran[k]: the instants during which watch k ran and which count
vars == <<now, w, ran, n>>
Init == WInit /\ ran = [k \in 1..2 |-> {}] /\ n = 0
Cut(k) == {i \in ran[k] : ~(w[k].run /\ i >= w[k].since)}
Act(A, r) == n < MaxOps /\ n' = n + 1 /\ A /\ ran' = r
Next == \/ \E k \in 1..2 : \/ Act(Start(k), [ran EXCEPT ![k] = Cut(k)])
                           \/ Act(Pause(k), ran)
                           \/ Act(Reset(k), [ran EXCEPT ![k] = {}])
                           \/ Act(Copy(k), [ran EXCEPT ![k] = ran[3 - k]])
        \/ now < MaxNow /\ \E x \in 1..2 : /\ Pass(x) /\ n' = n
              /\ ran' = [k \in 1..2 |-> IF w[k].run THEN ran[k] \cup now..now + x - 1 ELSE ran[k]]
Spec == Init /\ [][Next]_vars
ShowsWhatRan == \A k \in 1..2 : Value(w[k]) = Cardinality(ran[k])
NotMore == \A k \in 1..2 : Value(w[k]) \in 0..now
=============================================================================
