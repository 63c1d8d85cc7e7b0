-------------------------- MODULE ParticleStoreMC --------------------------
(* The container itself as a state machine over small domains: identities stay *)
(* what they were given as long as nothing is resized, and are all different.   *)
EXTENDS ParticleStore, FiniteSets, TLC
CONSTANTS MaxLen
P(m) == <<m, 1, 2, 3, 4, 5, 6, 7, 8, 9>>
Empty == [t |-> 0, r |-> <<>>]
VARIABLES st, last
E(op, x, y, i, n, a) == [op |-> op, x |-> x, y |-> y, i |-> i, n |-> n, a |-> a]
Do(e) == /\ last' = e
         /\ st' = [st EXCEPT ![e.x] = Target("size", st[e.x], st[e.y], e)]
         /\ Len(st'[e.x].r) <= MaxLen
Init == st = <<Empty, Empty>> /\ last = E("none", 1, 1, 1, 0, <<>>)
Next == \E x \in {1, 2}, m \in 1..2 :
          \/ Do(E("make", x, x, 1, 0, <<m>> \o P(m) \o P(3)))
          \/ Do(E("push", x, x, 1, 0, P(m)))
          \/ Do(E("clear", x, x, 1, 0, <<>>))
          \/ Do(E("resize", x, x, 1, m, <<>>))
          \/ Do(E("time", x, x, 1, 0, <<m>>))
          \/ \E i \in 1..Len(st[x].r) : Do(E("set", x, x, i, 0, P(m)))
          \/ Do(E("copy", x, 3 - x, 1, 0, <<>>))
Ids == \A x \in {1, 2} : \A k \in 1..Len(st[x].r) : st[x].r[k].id = k - 1
Masked == \A x \in {1, 2} : \A k \in 1..Len(st[x].r) : st[x].r[k].v[3] = 0 /\ st[x].r[k].v[2] = 1
CopyIsEqual == last.op = "copy" => st[1] = st[2]
View == st
Spec == Init /\ [][Next]_<<st, last>>
=============================================================================
