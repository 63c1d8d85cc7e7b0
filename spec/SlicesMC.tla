------------------------------ MODULE SlicesMC ------------------------------
EXTENDS Slices, TLC
CONSTANTS MaxCalls
VARIABLE now
mcvars == <<kind, start, end, num, base, calls, k, fires, late, now>>
Init == /\ kind = "step" /\ start = 0 /\ end = 0 /\ num = 1 /\ base = 2
        /\ calls = 0 /\ k = 0 /\ fires = 0 /\ late = FALSE /\ now = -1
Setup == /\ now = -1 /\ calls = 0 /\ now' = 0
         /\ \/ \E n \in 1..4 : Configure("step", 0, 0, n, 2)
            \/ \E s \in 0..2, d \in 0..8, n \in {1, 2, 4} : Configure("time", s, s + d, n, 2)
            \/ \E s \in 0..2, b \in {2, 3}, n \in 1..3 : Pow(b, n) <= 9 /\ Configure("log", s, s + Pow(b, n), n, b)
Tick == /\ now >= 0 /\ calls < MaxCalls
        /\ \E d \in 0..4 : now' = now + d /\ Call(now, Due(now))
Next == Setup \/ Tick \/ (calls = MaxCalls /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
(* with a call at every integer time, every instant up to the end is served within one call per instant *)
=============================================================================
