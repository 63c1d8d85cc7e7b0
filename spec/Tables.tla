------------------------------- MODULE Tables -------------------------------
(* Output files: a table file is a header and the recorded particles, row by row; *)
(* an energy file is a list of times and relative errors against the energy at the *)
(* writer's first record. Positions are integers with integer distances; G = 1.      *)
EXTENDS Integers, Sequences, FiniteSets
LC == 27720
Abs(x) == IF x < 0 THEN -x ELSE x
Common == {"time", "id", "mass", "px", "py", "pz", "vx", "vy", "vz"}
Extra == [p |-> {}, s |-> {"radius"}, t |-> {"radius", "k_AM", "tau_lag"}, d |-> {"sub_sonic_c", "local_cs"}]
Names(kind) == Common \cup Extra[kind]
Range(s) == {s[k] : k \in 1..Len(s)}
Header(kind, line) == Len(line) = Cardinality(Range(line)) /\ Range(line) = Names(kind)
(* the line of a particle r (a record by column names) under a header *)
Row(head, r) == [k \in 1..Len(head) |-> r[head[k]]]
Rows(head, rs) == [k \in 1..Len(rs) |-> Row(head, rs[k])]
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dist(p, i, j) == CHOOSE d \in 1..40 : d * d = Sq(Sub(p[i], p[j]))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* potential energy, positive, in units of 1/LC *)
U(m, p) == SumTo([i \in 1..Len(m) |-> SumTo([j \in 1..(i - 1) |-> m[i] * m[j] * (LC \div Dist(p, i, j))], i - 1)], Len(m))
T2(m, v) == SumTo([i \in 1..Len(m) |-> m[i] * Sq(v[i])], Len(m))
(* total energy in units of 1/(2 LC) *)
Energy(m, p, v) == LC * T2(m, v) - 2 * U(m, p)
IsRatio(N, S, a, b) == Abs(N * b - S * a) <= b
=============================================================================
