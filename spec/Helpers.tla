------------------------------ MODULE Helpers ------------------------------
(* Printing, reading, lists of containers and numeric helpers.                *)
(* Values: integers [t "i"], quarters [t "q"] (v quarters), words [t "s"].    *)
EXTENDS Integers, Sequences, TLC
VARIABLE s                 \* three containers of integers
Mag(x) == IF x < 0 THEN -x ELSE x

(******************************** text **************************************)
Quarter(v) == (IF v < 0 THEN "-" ELSE "") \o ToString(Mag(v) \div 4)
              \o (CASE Mag(v) % 4 = 0 -> "" [] Mag(v) % 4 = 1 -> ".25" [] Mag(v) % 4 = 2 -> ".5" [] OTHER -> ".75")
Shown(a) == CASE a.t = "i" -> ToString(a.v) [] a.t = "q" -> Quarter(a.v) [] a.t = "s" -> a.s
RECURSIVE Joined(_, _)
Joined(v, sep) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN Shown(v[1]) ELSE Shown(v[1]) \o sep \o Joined(Tail(v), sep)
RECURSIVE Ended(_, _)
Ended(v, end) == IF v = <<>> THEN "" ELSE Shown(v[1]) \o end \o Ended(Tail(v), end)
Text(op, v) == CASE op \in {"print", "std"} -> Joined(v, "")
                 [] op = "csv" -> Joined(v, ",")
                 [] op = "tuple" -> Joined(v, " ")
                 [] op \in {"display", "array", "vector", "small"} -> Ended(v, " ")

(******************************* containers *********************************)
Zeros(n) == [k \in 1..n |-> 0]
Sized(x, n) == IF n <= Len(x) THEN SubSeq(x, 1, n) ELSE x \o Zeros(n - Len(x))
Append2(i, x) == s' = [s EXCEPT ![i] = @ \o x]
Resize(who, n) == s' = [k \in 1..3 |-> IF who[k] THEN Sized(s[k], n) ELSE s[k]]
Clear(who) == s' = [k \in 1..3 |-> IF who[k] THEN <<>> ELSE s[k]]

(******************************** numbers ***********************************)
Min(a, b) == IF b < a THEN b ELSE a
Max(a, b) == IF b > a THEN b ELSE a
Range(lo, a, hi) == Min(Max(lo, a), hi)
Step(a) == IF a > 0 THEN 1 ELSE 0
Sign(a) == IF a > 0 THEN 1 ELSE -1         \* of zero: minus one

(* Bisection: a bracket, in either order, with the root in it. *)
Between(x, a, b) == Min(a, b) <= x /\ x <= Max(a, b)
=============================================================================
