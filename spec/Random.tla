------------------------------- MODULE Random -------------------------------
(* Drawing at random. A draw is an arbitrary value inside the limits of its distribution; a large   *)
(* sample must show the frequencies that the name of the distribution stands for. Probabilities are *)
(* in millionths, samples are of a million draws, so that an expected count is a probability.       *)
EXTENDS Integers, Sequences
Mega == 1000000
(*------ tables: normal distribution between the mean and k quarters of sigma; its density; the length of a normal vector in space *)
PhiT == <<0, 98706, 191462, 273373, 341345, 394350, 433193, 459941, 477250, 487776, 493790, 497020, 498650, 499423, 499767, 499912, 499968, 499989, 499997, 499999, 500000>>
ChiT == <<0, 4079, 30860, 95039, 198748, 332078, 477833, 617911, 738536, 832723, 899939, 944026, 970709, 985657, 993426, 997179, 998866, 999573, 999849, 999950, 999985, 999996, 999999, 1000000, 1000000>>
Phi(k) == IF k >= 0 THEN 500000 + PhiT[k + 1] ELSE 500000 - PhiT[1 - k]
Chi(k) == IF k <= 0 THEN 0 ELSE ChiT[k + 1]
(*------ a/b in millionths, 0 <= a <= b <= 2*10^8 (digits one after the other) ------*)
Ratio(a, b) ==
  LET d[i \in 0..6] == IF i = 0 THEN <<a \div b, a % b>> ELSE LET q == d[i-1] IN <<10 * q[1] + (10 * q[2]) \div b, (10 * q[2]) % b>>
  IN d[6][1]
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
(*------ probability that a draw is at most x ------*)
(* x outside the limits is put on the limit *)
Within(lo, x, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Uniform(lo, hi, x) == Ratio(Within(lo, x, hi) - lo, hi - lo)
(* limits and x are powers of two *)
Logarithmic(lo, hi, x) == Ratio(Log2(Within(lo, x, hi)) - Log2(lo), Log2(hi) - Log2(lo))
(* density x^((k-2)/2); limits and x are given by their square roots, so that x^(k/2) are integers *)
PowerLaw(k, lo, hi, x) ==
  LET r == Within(lo, x, hi)
  IN IF k > 0 THEN Ratio(Pow(r, k) - Pow(lo, k), Pow(hi, k) - Pow(lo, k))
     ELSE IF k < 0 THEN IF r = hi THEN Mega ELSE \* (lo^k - r^k) / (lo^k - hi^k), k negative
        LET n == -k IN Ratio(Pow(hi, n) * (Pow(r, n) - Pow(lo, n)), Pow(r, n) * (Pow(hi, n) - Pow(lo, n)))
     ELSE Logarithmic(lo, hi, r)
(* all numbers in quarters of sigma from here on *)
Normal(mean, x) == Phi(x - mean)
Cut(F(_), lo, hi, x) == Ratio(F(Within(lo, x, hi)) - F(lo), F(hi) - F(lo))
(* p is the distribution and its parameters *)
Below(d, p, x) ==
  CASE d = "uniform" -> Uniform(p[1], p[2], x)
    [] d = "log" -> Logarithmic(p[1], p[2], x)
    [] d = "power" -> PowerLaw(p[1], p[2], p[3], x)
    [] d = "normal" -> Normal(p[1], x)
    [] d = "tnormal" -> LET F(y) == Normal(p[3], y) IN Cut(F, p[1], p[2], x)
    [] d = "maxwell" -> Chi(x)
    [] d = "tmaxwell" -> Cut(Chi, p[1], p[2], x)
(*------ the shape of a sample ------*)
(* six standard deviations of a binomial count of a million draws with probability p, table and    *)
(* rounding errors; what cannot happen did not                                                    *)
Abs(x) == IF x < 0 THEN -x ELSE x
Agrees(n, p) == IF p <= 0 THEN n = 0 ELSE IF p >= Mega THEN n = Mega ELSE
  LET d == Abs(n - p) IN d <= 4000 /\ d * d <= 36 * ((((p \div 1000) + 1) * (Mega - p)) \div 1000) + 400
(* counts below the first edge, between neighbours, above the last *)
Chances(d, p, ed) == [i \in 1..(Len(ed) + 1) |-> (IF i > Len(ed) THEN Mega ELSE Below(d, p, ed[i])) - (IF i = 1 THEN 0 ELSE Below(d, p, ed[i-1]))]
(* outermost bins of an unbounded distribution may be empty in the tables but not in truth *)
Open(d) == d \in {"normal", "maxwell"}
Shaped(d, p, ed, cnt) == Len(cnt) = Len(ed) + 1 /\ \A i \in 1..Len(cnt) :
  LET q == Chances(d, p, ed)[i] IN Agrees(cnt[i], q) \/ (Open(d) /\ q <= 2 /\ cnt[i] <= 40)
Product(a, b) == ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div Mega
(* two draws have nothing to do with one another: a table of joint counts, by rows *)
Independent(q1, q2, cnt) == \A i \in 1..Len(q1), j \in 1..Len(q2) : Agrees(cnt[(i - 1) * Len(q2) + j], Product(q1[i], q2[j]))
(*------ drawing until the value lies within the limits of a parameter ------*)
None == 1000000000
Allowed(lo, hi, x) == (lo = None \/ lo <= x) /\ (hi = None \/ x <= hi)
(* first acceptable place at or after k, 0 if there is none *)
First(s, k, lo, hi) == LET A == {i \in k..Len(s) : Allowed(lo, hi, s[i])} IN IF A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : i <= j
=============================================================================
