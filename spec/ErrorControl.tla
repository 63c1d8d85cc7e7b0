---------------------------- MODULE ErrorControl ----------------------------
(* What the error estimators return and what the step controller makes of an   *)
(* error.                                                                       *)
(*   worst offender   max_i  |difference_i| / (atol + scale_i rtol)             *)
(*   largest ratio    max_i |difference_i| / max_i (atol + scale_i rtol)        *)
(*   rms              root of the mean of the squared weighted differences      *)
(* with two arguments (y, difference) the scale is |y|; with three (y0,y1,y1')  *)
(* the difference is y1' - y1 and the scale max(|y0|,|y1|) (worst offender,     *)
(* rms) or |y0| (largest ratio). K clears every denominator.                    *)
(* The controller returns S1 (S2/e0)^(Kp/order) (e1/S2)^(Ki/order), Kp = 1 for  *)
(* a single error, and its upper limit for a vanishing error; the limits are    *)
(* S3^(1/order)/S4 and S3^(-1/order).                                           *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
MaxOf(f) == CHOOSE m \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : f[i] <= m
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

Diff(form, b, c)   == [i \in DOMAIN b |-> IF form = "2" THEN Abs(b[i]) ELSE Abs(c[i] - b[i])]
Scale(kind, form, a, b) == [i \in DOMAIN a |-> IF form = "2" \/ kind = "mr" THEN Abs(a[i]) ELSE Max2(Abs(a[i]), Abs(b[i]))]
Weight(kind, form, at, rt, a, b) == [i \in DOMAIN a |-> at + rt * Scale(kind, form, a, b)[i]]

(* the value times K (rms: its square times the number of entries times K) *)
Estimate(kind, form, at, rt, a, b, c, K) ==
  LET d == Diff(form, b, c)
      w == Weight(kind, form, at, rt, a, b)
  IN CASE kind = "wo"  -> MaxOf([i \in DOMAIN a |-> d[i] * (K \div w[i])])
       [] kind = "mr"  -> MaxOf(d) * (K \div MaxOf(w))
       [] kind = "rms" -> SumTo([i \in DOMAIN a |-> d[i] * d[i] * (K \div (w[i] * w[i]))], Len(a))

(* k > 0: the error calls for a step k times larger, k < 0: -k times smaller, 0: no error. j: the previous error's factor *)
Factor(k, j) == IF k > 0 THEN 36000 * k * j ELSE (36000 * j) \div (-k)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
=============================================================================
