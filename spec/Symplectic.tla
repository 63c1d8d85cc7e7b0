------------------------------ MODULE Symplectic ------------------------------
(* A splitting step is a product of exponentials e^(c1 A) e^(d1 B) e^(c2 A) ... of drifts (A) and kicks (B). It has order p
   exactly if its expansion agrees with e^(A+B) on every word of length up to p, which it does if it agrees on the Lyndon
   words (the product is group-like). Numbers are fixed point: <<l1, ..., l6>> is the sum of l_i 2^(14(i-5)), so 56 bits
   behind the point; l6 carries the sign, the others are 0..2^14-1. *)
EXTENDS Integers, Sequences
B == 16384
N == 6
F == 4
\* carry normalisation of limbs s[1..n] that may be out of range; the last one keeps the sign
RECURSIVE Norm(_, _, _)
Norm(s, i, c) == IF i = N THEN <<s[N] + c>> ELSE <<(s[i] + c) % B>> \o Norm(s, i + 1, (s[i] + c) \div B)
Add(a, b) == Norm([i \in 1..N |-> a[i] + b[i]], 1, 0)
Sub(a, b) == Norm([i \in 1..N |-> a[i] - b[i]], 1, 0)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > N \/ k - i < 0 THEN 0 ELSE (IF k - i + 1 > N THEN 0 ELSE a[i] * b[k - i + 1]) + Conv(a, b, k, i + 1)
\* column k of the product is worth 2^(14(k-1-2F)); columns below F only feed their carry
RECURSIVE Carry(_, _, _, _)
Carry(a, b, k, c) == IF k > F THEN c ELSE Carry(a, b, k + 1, (Conv(a, b, k, 1) + c) \div B)
RECURSIVE Cols(_, _, _, _)
Cols(a, b, k, c) == LET v == Conv(a, b, k, 1) + c
                    IN IF k = F + N THEN <<v + B * Conv(a, b, k + 1, 1)>> ELSE <<v % B>> \o Cols(a, b, k + 1, v \div B)
IsZero(a) == \A i \in 1..N : a[i] = 0
Zero == [i \in 1..N |-> 0]
One == [i \in 1..N |-> IF i = F + 1 THEN 1 ELSE 0]
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero ELSE Cols(a, b, F + 1, Carry(a, b, 1, 0))
RECURSIVE DivN(_, _, _, _)
\* division by a small positive number, from the top limb down
DivN(a, n, i, r) == IF i = 0 THEN <<>> ELSE LET v == a[i] + r * B IN DivN(a, n, i - 1, v % n) \o <<v \div n>>
Div(a, n) == DivN(a, n, N, 0)
Neg(a) == Sub(Zero, a)
Mag(a) == IF a[N] < 0 THEN Neg(a) ELSE a
\* |a| < 2^-e-ish: nothing in the upper limbs, the second limb (units of 2^-42) below m
Small(a, m) == LET b == Mag(a) IN \A i \in 3..N : b[i] = 0 /\ b[2] < m

\* ---- words
Words(n) == [1..n -> {0, 1}]
LexLess(u, v) == \E i \in 1..Len(u) : u[i] < v[i] /\ \A j \in 1..i - 1 : u[j] = v[j]
Rot(w, k) == [i \in 1..Len(w) |-> w[((i + k - 1) % Len(w)) + 1]]
Lyndon(n) == {w \in Words(n) : \A k \in 1..n - 1 : LexLess(w, Rot(w, k))}
LyndonUpTo(p) == UNION {Lyndon(n) : n \in 1..p}
RECURSIVE Num(_, _)
Num(w, i) == IF i > Len(w) THEN 0 ELSE w[i] + 2 * Num(w, i + 1)
RECURSIVE InvFact(_)
InvFact(n) == IF n = 0 THEN One ELSE Div(InvFact(n - 1), n)
\* ---- the product so far, on the prefixes of a word: q[j+1] is the coefficient of its first j letters
Start(w) == [j \in 1..Len(w) + 1 |-> IF j = 1 THEN One ELSE Zero]
\* c^k/k! for k = 0..p; start with acc = <<One>>, k = 1
RECURSIVE Powers(_, _, _, _)
Powers(c, k, p, acc) == IF k > p THEN acc ELSE Powers(c, k + 1, p, Append(acc, Div(Mul(acc[k], c), k)))
RECURSIVE Term(_, _, _, _, _, _)
\* sum over k of q[j-k] c^k/k! while the letters w[j-k+1..j] are all x
Term(w, q, x, pw, j, k) == LET here == IF IsZero(q[j - k + 1]) THEN Zero ELSE IF k = 0 THEN q[j + 1] ELSE Mul(q[j - k + 1], pw[k + 1])
                           IN IF k < j /\ w[j - k] = x THEN Add(here, Term(w, q, x, pw, j, k + 1)) ELSE here
Apply(w, q, x, pw) == [j \in 1..Len(w) + 1 |-> IF j = 1 THEN One ELSE Term(w, q, x, pw, j - 1, 0)]
\* off by how much from e^(A+B)
Residual(w, q) == Sub(q[Len(w) + 1], InvFact(Len(w)))
==============================================================================
