------------------------------- MODULE Names -------------------------------
(* Names for files: the prefix, the date and time of day, and a number in parentheses if this name was   *)
(* given before. The state is how often each was given, and the time (seconds since 1970).                *)
EXTENDS Integers, Sequences, TLC
VARIABLES now, given
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Year(y) == IF Leap(y) THEN 366 ELSE 365
Month(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE YearOf(_, _), MonthOf(_, _, _)
YearOf(d, y) == IF d < Year(y) THEN <<d, y>> ELSE YearOf(d - Year(y), y + 1)
MonthOf(d, y, m) == IF d < Month(y, m) THEN <<d + 1, m, y>> ELSE MonthOf(d - Month(y, m), y, m + 1)
Date(t) == LET q == YearOf(t \div 86400, 1970) IN MonthOf(q[1], q[2], 1)
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
Stamp(t) == LET d == Date(t) s == t % 86400
            IN Two(d[1]) \o "-" \o Two(d[2]) \o "-" \o ToString(d[3]) \o "_" \o Two(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60)
Zone == 3 * 3600             \* clocks are three hours ahead of Greenwich
Base(p) == p \o Stamp(now + Zone)
Times(b) == IF b \in DOMAIN given THEN given[b] ELSE 0
Name(b, k) == IF k = 0 THEN b \o ".dat" ELSE b \o "(" \o ToString(k) \o ").dat"
Auto(p, r) == LET b == Base(p) IN r = Name(b, Times(b)) /\ given' = (b :> Times(b) + 1) @@ given /\ now' = now
Made(p, x, e) == p \o ToString(x) \o e
Pass(x) == now' = now + x /\ UNCHANGED given
=============================================================================
