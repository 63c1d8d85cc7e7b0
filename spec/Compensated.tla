---------------------------- MODULE Compensated ----------------------------
(* What a compensated sum promises: its value r stays within a couple of units   *)
(* of the exact sum S, however many terms were added, where the size of a unit is *)
(* set by the sum A of the sizes of the terms and the p digits of the mantissa,   *)
(* and does not grow with the number of terms.                                      *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
(* these replace the number; nothing is left of what it was, nor of its compensation *)
Fresh == {"set", "assign", "read"}
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Within(r, S, unit) == Abs(r - S) <= 2 * unit + 2
(* exact bookkeeping: state [S, A]; the step of an operation with argument x; adv adds 2x, vec adds x, minus x, plus x *)
After(s, op, x, base) ==
  CASE op \in Fresh            -> [S |-> x, A |-> base + Abs(x), b |-> base]
    [] op \in {"add", "addk"}    -> [s EXCEPT !.S = @ + x, !.A = @ + Abs(x)]
    [] op \in {"sub", "subk"}    -> [s EXCEPT !.S = @ - x, !.A = @ + Abs(x)]
    [] op = "adv"                -> [s EXCEPT !.S = @ + 2 * x, !.A = @ + 2 * Abs(x)]
    [] op = "vec"                -> [s EXCEPT !.S = @ + x, !.A = @ + 3 * Abs(x)]
    [] op = "neg"                -> [s EXCEPT !.S = -@]
    [] op = "muli"               -> [s EXCEPT !.S = @ * x, !.A = @ * Abs(x)]
    [] op = "divi"               -> [s EXCEPT !.S = IF x < 0 THEN (-@) \div (-x) ELSE @ \div x, !.A = @ \div Abs(x)]   \* only asked where x divides everything
    [] OTHER                     -> s
=============================================================================
