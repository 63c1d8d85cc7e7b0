------------------------------- MODULE Slices -------------------------------
(* Callbacks that pass on only some of the calls made to them.                 *)
(*  step slice: the first call and then every num-th call                      *)
(*  time slice: at most once per call, when the time has reached the next of   *)
(*              the instants start + k*(end-start)/num and is not after end    *)
(*  log slice : the same with the instants start + base^k, base^num = end-start,*)
(*              a call consumes every instant it has passed                    *)
EXTENDS Integers, Sequences
CONSTANT U        \* ticks per time unit: all times are in ticks

VARIABLES kind, start, end, num, base, calls, k, fires, late
svars == <<kind, start, end, num, base, calls, k, fires, late>>

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* the k-th instant lies at or before x (multiplied out: no fractions) *)
TimeDue(x, kk) == (x - start) * num >= kk * (end - start)
LogDue(x, kk)  == x - start >= U * Pow(base, kk)
Due(x) == CASE kind = "step" -> calls % num = 0
            [] kind = "time" -> TimeDue(x, k) /\ x <= end
            [] kind = "log"  -> LogDue(x, k) /\ x <= end
RECURSIVE Past(_, _)
Past(x, kk) == IF LogDue(x, kk) THEN Past(x, kk + 1) ELSE kk
NextK(x) == CASE kind = "step" -> k
              [] kind = "time" -> k + 1
              [] kind = "log"  -> Past(x, k)

Configure(kd, s, e, n, b) ==
   /\ kind' = kd /\ start' = s /\ end' = e /\ num' = n /\ base' = b
   /\ calls' = 0 /\ k' = (IF kd = "log" THEN 1 ELSE 0) /\ fires' = 0 /\ late' = FALSE
(* one call at time x; f: whether the wrapped operation is invoked *)
Call(x, f) ==
   /\ f = Due(x)
   /\ calls' = calls + 1
   /\ k' = IF f THEN NextK(x) ELSE k
   /\ fires' = IF f THEN fires + 1 ELSE fires
   /\ late' = (late \/ x > end)
   /\ UNCHANGED <<kind, start, end, num, base>>

----------------------------------------------------------------------------
StepCount  == kind = "step" => fires = (calls + num - 1) \div num
(* no more firings than instants in [start, end] *)
AtMostNum  == /\ (kind = "time" /\ end > start => fires <= num + 1)
              /\ (kind = "log" => fires <= num)
KeepsCount == /\ (kind = "time" => k = fires)
              /\ (kind = "log" => k >= fires + 1)
=============================================================================
