---------------------------- MODULE ChainCoordMC ----------------------------
EXTENDS ChainCoord
CONSTANTS N, MaxOps
VARIABLES ops, truth
(* truth: the bodies followed without any chain *)
Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
Start == [i \in 1..N |-> (i * i * 7) % 11]
Moves == {[k \in 1..N |-> IF k = j THEN e ELSE 0] : j \in 1..N, e \in {1, -3}}
Init == \E ix \in Perms : n = N /\ cart = Start /\ idx = ix /\ chain = ToChain(Start, ix) /\ ops = 0 /\ truth = Start
Reorder == ops < MaxOps /\ ops' = ops + 1 /\ (\E ix \in Perms : ix # idx /\ Rechain(ix)) /\ truth' = truth
Move == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E d \in Moves : /\ Advance(d)
                            /\ truth' = [i \in 1..N |-> truth[i] + IF d[N] # 0 THEN d[N]
                                           ELSE LET j == CHOOSE k \in 1..N : d[k] # 0 IN IF Place(idx, i) > j THEN d[j] ELSE 0]
Next == Reorder \/ Move
Spec == Init /\ [][Next]_<<cvars, ops, truth>>
FollowsTruth == cart = truth
=============================================================================
