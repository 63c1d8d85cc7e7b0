----------------------------- MODULE HelpersMC -----------------------------
(* Texts can be taken apart again, containers keep what they had, and         *)
(* bisection closes in on the root, wherever in the bracket it is.            *)
EXTENDS Helpers
CONSTANT Width
VARIABLES low, high, root, side, n
vars == <<s, low, high, root, side, n>>
Init == /\ s = <<<<>>, <<>>, <<>>>>
        /\ low \in -Width..Width /\ high \in -Width..Width /\ low # high
        /\ root \in Min(low, high)..Max(low, high) /\ side \in {-1, 1} /\ n = 0
\* the function is negative on one side of the root and zero at it
F(x) == side * (IF x > root THEN 1 ELSE IF x < root THEN -1 ELSE 0)
Mid == (low + high) \div 2
Halve == /\ Mid # low /\ Mid # high
         /\ IF F(Mid) * F(high) > 0 THEN high' = Mid /\ low' = low ELSE low' = Mid /\ high' = high
         /\ UNCHANGED <<s, root, side, n>>
Who == {<<TRUE, FALSE, TRUE>>, <<FALSE, TRUE, TRUE>>}
Edit == /\ n < 4 /\ low = -Width /\ high = Width /\ root = Width /\ side = 1 /\ n' = n + 1
        /\ \/ \E i \in 1..3 : Append2(i, <<n + 1, n + 2>>)
           \/ \E w \in Who, k \in 0..3 : Resize(w, k)
           \/ \E w \in Who : Clear(w)
        /\ UNCHANGED <<low, high, root, side>>
Next == Halve \/ Edit
Spec == Init /\ [][Next]_vars /\ WF_vars(Halve)
Holds == Between(root, low, high)
Closes == <>(Mag(high - low) <= 1)
Prefix(x, y) == Len(x) <= Len(y) /\ \A k \in 1..Len(x) : x[k] = y[k]
Kept == [][\A k \in 1..3 : Prefix(s[k], s'[k]) \/ Prefix(s'[k], s[k])]_s
Laws == (\A a \in -3..3, b \in -3..3 : Min(a, b) + Max(a, b) = a + b /\ Range(Min(a, b), low, Max(a, b)) \in Min(a, b)..Max(a, b)
                                      /\ Mag(a * b) = Mag(a) * Mag(b) /\ Step(a) * 2 - 1 = Sign(a)) = TRUE
V == {[t |-> "i", v |-> -2], [t |-> "q", v |-> 3], [t |-> "q", v |-> -9], [t |-> "s", s |-> "ab"]}
Texts == (\A a \in V, b \in V : Text("csv", <<a>>) \o "," \o Text("csv", <<b>>) = Text("csv", <<a, b>>)
                               /\ Text("display", <<a>>) \o Text("display", <<b>>) = Text("vector", <<a, b>>)
                               /\ (a # b => Text("tuple", <<a, b>>) # Text("tuple", <<b, a>>))) = TRUE
=============================================================================
