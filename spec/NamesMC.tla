------------------------------ MODULE NamesMC ------------------------------
(* Names never repeat, whatever prefixes are named in whatever order and however the clock is set. The    *)
(* calendar: every day follows the day before it.                                                         *)
EXTENDS Names, FiniteSets
CONSTANTS Prefixes, MaxN
VARIABLES names, n
Init == now \in {0, 951782399} /\ given = <<>> /\ names = {} /\ n = 0
Next == /\ n < MaxN /\ n' = n + 1
        /\ \/ \E p \in Prefixes : LET r == Name(Base(p), Times(Base(p))) IN Auto(p, r) /\ names' = names \cup {r}
           \/ \E x \in {-1, 1} : now + x >= 0 /\ Pass(x) /\ names' = names
Spec == Init /\ [][Next]_<<now, given, names, n>>
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
Distinct == Cardinality(names) = Total(given, DOMAIN given)
Follows(a, b) == \/ b = <<a[1] + 1, a[2], a[3]>> /\ a[1] < Month(a[3], a[2])
                 \/ b = <<1, a[2] + 1, a[3]>> /\ a[1] = Month(a[3], a[2])
                 \/ b = <<1, 1, a[3] + 1>> /\ a[2] = 12 /\ a[1] = 31
ASSUME \A d \in 0..24000 : Follows(Date(d * 86400), Date((d + 1) * 86400 - 0))
ASSUME Date(0) = <<1, 1, 1970>> /\ Date(951782400) = <<29, 2, 2000>> /\ Date(2147483647) = <<19, 1, 2038>>
ASSUME Stamp(951782399) = "28-02-2000_23:59:59"
=============================================================================
