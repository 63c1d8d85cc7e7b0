------------------------------- MODULE Units -------------------------------
(* Units, constants and formulas of astrophysics.  A decimal number <<m, e>>  *)
(* is m * 10^(e-7) with a mantissa m of eight digits.  Tolerances are in      *)
(* units of the eighth digit of 1.0000000.                                    *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
E8 == 100000000
E7 == 10000000
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>>
              ELSE IF m < E7 THEN Norm(m * 10, e - 1)
              ELSE IF m >= E8 THEN Norm((m + 5) \div 10, e + 1)
              ELSE <<m, e>>
Dec(n) == Norm(n, 7)                      \* of a natural number
RECURSIVE Digits(_, _, _, _)
Digits(r, b, k, q) == IF k = 0 THEN q ELSE Digits(((r * 10) % b), b, k - 1, q * 10 + ((r * 10) \div b))
\* long division, nine digits
Quot(x, y) == Norm(Digits(x[1] % y[1], y[1], 8, x[1] \div y[1]), x[2] - y[2] - 1)
\* four digits are kept
Times(x, y) == Norm((x[1] \div 10000) * (y[1] \div 10000), x[2] + y[2] + 1)

Close(x, y, t) ==
    CASE x[2] = y[2]     -> Abs(x[1] - y[1]) <= t * ((y[1] + E7) \div E7)
      [] x[2] = y[2] + 1 -> Abs(x[1] * 10 - y[1]) <= t * 10
      [] x[2] = y[2] - 1 -> Abs(x[1] - y[1] * 10) <= t * 10
      [] OTHER -> FALSE

(***************************** what the units are ***************************)
U(d, m, e, t) == [d |-> d, v |-> <<m, e>>, t |-> t]
Unit == [AU  |-> U("L", 14959787, 11, 1), PC |-> U("L", 30856776, 16, 1), km |-> U("L", E7, 3, 1),
         m   |-> U("L", E7, 0, 1), cm |-> U("L", E7, -2, 1),
         Rs  |-> U("L", 69570000, 8, 5000), Re |-> U("L", 63780000, 6, 20000), Rj |-> U("L", 69911000, 7, 10000),
         Ms  |-> U("M", 19884700, 30, 1000), kg |-> U("M", E7, 0, 1), mp |-> U("M", 16726219, -27, 10),
         Me  |-> U("M", 59722000, 24, 10000), Mj |-> U("M", 18981300, 27, 10000), Mmoon |-> U("M", 73420000, 22, 10000),
         sec |-> U("T", E7, 0, 1), min |-> U("T", 60000000, 1, 1), hr |-> U("T", 36000000, 3, 1), day |-> U("T", 86400000, 4, 1),
         year |-> U("T", 31558150, 7, 20), month |-> U("T", 26298458, 6, 20), kyr |-> U("T", 31558150, 10, 20),
         Myr |-> U("T", 31558150, 13, 20), Gyr |-> U("T", 31558150, 16, 20), T_hubble |-> U("T", 43234665, 17, 150000),
         kms |-> U("V", E7, 3, 1), cms |-> U("V", E7, -2, 1), one |-> U("A", E7, 0, 1), deg |-> U("A", 17453293, -2, 1)]
\* the gravitational constant, the sun and the astronomical unit are one
Code == [AU |-> Dec(1), Ms |-> Dec(1), year |-> <<62831853, 0>>, deg |-> <<17453293, -2>>]
Ratio(a, b) == Quot(Unit[a].v, Unit[b].v)
Tol(a, b) == Unit[a].t + Unit[b].t + 1
IsRatio(a, b, r) == IF b = "one" /\ a \in DOMAIN Code THEN Close(r, Code[a], 1)
                    ELSE Unit[a].d = Unit[b].d /\ Close(r, Ratio(a, b), Tol(a, b))

C(m, e, t) == [v |-> <<m, e>>, t |-> t]
Const == [pi |-> C(31415927, 0, 1), G |-> C(E7, 0, 0), Gsi |-> C(66743000, -11, 5000), C |-> C(29979246, 5, 1),
          light_time |-> C(49900478, 2, 20), kB |-> C(13806490, -23, 10), kB_on_mp |-> C(82544010, 3, 20000),
          kms_in_code |-> C(29784692, 1, 50),
          a_jupiter |-> C(52044000, 0, 10000), e_jupiter |-> C(48900000, -2, 10000), LoAN_jupiter |-> C(10046400, 2, 10000),
          AoP_jupiter |-> C(27386700, 2, 10000), i_jupiter |-> C(60900000, 0, 10000),
          a_neptune |-> C(30110000, 1, 10000), e_neptune |-> C(94560000, -3, 10000), LoAN_neptune |-> C(13178400, 2, 10000),
          AoP_neptune |-> C(27633600, 2, 10000), i_neptune |-> C(64300000, 0, 10000),
          a_mercury |-> C(38709800, -1, 10000), e_mercury |-> C(20563000, -1, 10000), LoAN_mercury |-> C(48331000, 1, 10000),
          AoP_mercury |-> C(29124000, 1, 10000), i_mercury |-> C(33800000, 0, 10000)]
IsConst(a, r) == Close(r, Const[a].v, Const[a].t)

(************************* radii of stars, in kilometres *********************)
\* of n/d suns, for stars (n/d)^4, for white dwarfs (n/d)^3
SunKm == 695700
Radius(a, n, d) == CASE a = "BH"   -> Quot(Norm(29532501, 0), Quot(Dec(d), Dec(n)))
                     [] a = "NS"   -> Dec(10)
                     [] a = "STAR" -> Quot(Dec(n * n * n * SunKm), Dec(d * d * d))
                     [] a = "WD"   -> Quot(Dec(SunKm * d), Dec(100 * n))
RadiusTol(a) == CASE a = "BH" -> 60 [] a = "NS" -> 1 [] OTHER -> 5000

(************ the timescale of the eccentric Kozai-Lidov mechanism ***********)
\* inner orbits of a1 = (m1+m2) t^2 have the period (m1+m2) t^3 years
Root(a1, mi) == IF \E t \in 1..10 : a1 = mi * t * t THEN CHOOSE t \in 1..10 : a1 = mi * t * t ELSE 0
C5(e5) == CASE e5 = 0 -> 5 [] e5 = 3 -> 4 [] e5 = 4 -> 3
Cube(x) == x * x * x
\* in years, times m3 a1^3 125
Kozai(mi, a1, a2, e5) == mi * mi * Cube(Root(a1, mi)) * Cube(a2) * Cube(C5(e5))
IsKozai(mi, a1, a2, e5, r) == Root(a1, mi) > 0 /\ Abs(r - Kozai(mi, a1, a2, e5)) <= 1 + (Kozai(mi, a1, a2, e5) \div 1000000)
=============================================================================
