---------------------------- MODULE ChainSelect ----------------------------
(* How the chain is formed: the closest pair is the seed, then the chain is    *)
(* extended at whichever end has the closest free particle, until every        *)
(* particle is a link.  Distances are abstract; ties may be broken either way. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, MaxRank, Distinct
Part  == 0..(N - 1)
Edges == {e \in SUBSET Part : Cardinality(e) = 2}

VARIABLES dist, path
vars == <<dist, path>>

Range(s)     == {s[i] : i \in DOMAIN s}
Free(p)      == Part \ Range(p)
MinOf(d, S)  == CHOOSE e \in S : \A f \in S : d[e] <= d[f]
EndEdges(p)  == {e \in Edges : \E f \in Free(p) : e = {p[1], f} \/ e = {p[Len(p)], f}}
Shortest(d, S) == {e \in S : \A f \in S : d[e] <= d[f]}

Init == /\ IF Distinct
             THEN dist \in {f \in [Edges -> 1..MaxRank] : \A a, b \in Edges : a # b => f[a] # f[b]}
             ELSE dist \in [Edges -> 1..MaxRank]
        /\ path = <<>>

Seed == /\ path = <<>>
        /\ \E e \in Shortest(dist, Edges) : \E a \in e, b \in e : a # b /\ path' = <<a, b>>
        /\ UNCHANGED dist

Extend == /\ path # <<>> /\ Len(path) < N
          /\ \E e \in Shortest(dist, EndEdges(path)) : \E f \in Free(path) \cap e :
                \/ /\ e = {path[1], f}         /\ path' = <<f>> \o path
                \/ /\ e = {path[Len(path)], f} /\ path' = Append(path, f)
          /\ UNCHANGED dist

Done == Len(path) = N /\ UNCHANGED vars
Next == Seed \/ Extend \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Seed) /\ WF_vars(Extend)

Complete  == Len(path) = N
NoRepeat  == \A i, j \in DOMAIN path : i # j => path[i] # path[j]
IsAPermutation == Complete => Range(path) = Part
Adjacent(a, b) == \E i \in 1..(Len(path) - 1) : {path[i], path[i + 1]} = {a, b}
(* a and b are each other's strictly nearest neighbour *)
Mutual(a, b) == \A c \in Part \ {a, b} : dist[{a, b}] < dist[{a, c}] /\ dist[{a, b}] < dist[{b, c}]
(* what the chain is for: close pairs are links, so they never suffer cancellation *)
MutualPairsAreLinks == Complete => \A e \in Edges : \A a, b \in e : (a # b /\ Mutual(a, b)) => Adjacent(a, b)
SomeClosestIsLink   == Complete => \E e \in Shortest(dist, Edges) : \E a, b \in e : a # b /\ Adjacent(a, b)
Finishes == <>Complete
=============================================================================
