----------------------------- MODULE Collision -----------------------------
(* Bodies that drift, and a run that ends as soon as two of them touch. *)
EXTENDS Integers, Sequences
Sq(x) == x * x
Dist2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Touching(pos, r) == \E i, j \in 1..Len(r) : i < j /\ Dist2(pos[i], pos[j]) <= Sq(r[i] + r[j])
Drift(pos, v, h) == [i \in 1..Len(v) |-> [k \in 1..3 |-> pos[i][k] + v[i][k] * h]]
Min2(x, y) == IF x < y THEN x ELSE y
Over(t, pos, r, end) == t = end \/ Touching(pos, r)
StepTo(t, pos, v, h, end) == LET d == Min2(h, end - t) IN [t |-> t + d, pos |-> Drift(pos, v, d)]
=============================================================================
