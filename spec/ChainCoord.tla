----------------------------- MODULE ChainCoord -----------------------------
(* Chain coordinates of a set of bodies: differences along an order, and the   *)
(* first body's own coordinate.  One coordinate axis is modelled; the three    *)
(* axes are independent.  Re-ordering re-expresses the chain and nothing else. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, cart, chain, idx
cvars == <<n, cart, chain, idx>>
ToChain(A, ix) == [k \in 1..Len(A) |-> IF k = Len(A) THEN A[ix[1]] ELSE A[ix[k + 1]] - A[ix[k]]]
Place(ix, i)   == CHOOSE k \in DOMAIN ix : ix[k] = i
RECURSIVE Walk(_, _)
Walk(C, k)     == IF k = 1 THEN C[Len(C)] ELSE Walk(C, k - 1) + C[k - 1]
FromChain(C, ix) == [i \in 1..Len(C) |-> Walk(C, Place(ix, i))]
(* the vector between two places of a chain, summed along the links only *)
RECURSIVE Along(_, _, _)
Along(C, a, b) == IF a = b THEN 0 ELSE IF a < b THEN C[a] + Along(C, a + 1, b) ELSE -Along(C, b, a)
Reexpress(C, A, old, new) ==
   [k \in 1..Len(C) |-> IF k = Len(C) THEN A[new[1]] ELSE Along(C, Place(old, new[k]), Place(old, new[k + 1]))]

Build(A, ix)  == n' = Len(A) /\ cart' = A /\ idx' = ix /\ chain' = ToChain(A, ix)
Rechain(ix)   == idx' = ix /\ chain' = Reexpress(chain, cart, idx, ix) /\ UNCHANGED <<n, cart>>
Advance(d)    == chain' = [k \in 1..n |-> chain[k] + d[k]] /\ cart' = FromChain(chain', idx) /\ UNCHANGED <<n, idx>>

Lossless  == FromChain(chain, idx) = cart
Canonical == chain = ToChain(cart, idx)
=============================================================================
