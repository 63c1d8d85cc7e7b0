---------------------------- MODULE BSControlTrace ----------------------------
(* {"mode","rej","ev":[{"h","lev":[[[err,num,den] x 7] per attempt],"next","seqs":[{"clean","n","k","c"}],"dy"}]}
   h, next and the substep sizes are in units of 1/64. *)
EXTENDS BSControl, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, p, a, h, rejs, all
\* p: sequences of this event already explained; a: attempt number; h: current step as <<num, den>>; rejs, all: attempts
tv == <<rank, first, tr, l, p, a, h, rejs, all>>
Ev == Traces[tr].ev
Sys == Traces[tr].mode = "sys"
E == Ev[l]
Abs(x) == IF x < 0 THEN -x ELSE x
Lev == E.lev[IF a <= Len(E.lev) THEN a ELSE Len(E.lev)]
Errs == [k \in 1..Top |-> Lev[k][1]]
Ratio == [k \in 1..Top |-> <<Lev[k][2], Lev[k][3]>>]
\* the scripted limiter
Pow2(e) == IF e < 0 THEN <<1, 2 ^ (-e)>> ELSE <<2 ^ e, 1>>
Below(e, r) == Pow2(e)[1] * r[2] * 32 <= r[1] * 33 * Pow2(e)[2]
RECURSIVE Lim(_, _, _)
Lim(e, hi, r) == IF e < hi /\ Below(e + 1, r) THEN Lim(e + 1, hi, r) ELSE e
Limited(order, r) == Pow2(Lim(-1 - (order % 4), order % 3, r))
\* one sequence of m substeps of the step h = hn/hd
Ops(m, kdk) ==      \* [kind, half] for every operation
  [i \in 1..2 * m + 1 |-> LET odd == i % 2 = 1 IN
     <<IF odd = kdk THEN "K" ELSE "D", i = 1 \/ i = 2 * m + 1>>]
RECURSIVE Kinds(_, _, _)
Kinds(m, kdk, i) == IF i = 0 THEN "" ELSE Kinds(m, kdk, i - 1) \o Ops(m, kdk)[i][1]
KindTab == [m \in {N[i] : i \in 1..8} |-> Kinds(m, Kdk, 2 * m + 1)]
\* c is the d-th part of the step (all scripted steps are divisible)
Part(c, d) == h[2] = 1 /\ h[1] % d = 0 /\ c = h[1] \div d
SeqOk(s, k) ==
  /\ s.clean /\ s.n = n(k)
  /\ IF Sys THEN
       /\ s.k = KindTab[n(k)]
       /\ Len(s.c) = 2 * n(k) + 1
       /\ \A i \in 1..2 * n(k) + 1 :
            Part(s.c[i], n(k) * (IF i = 1 \/ i = 2 * n(k) + 1 THEN 2 ELSE 1))
     ELSE Len(s.c) = n(k) /\ \A i \in 1..n(k) : Part(s.c[1], n(k)) /\ s.c[i] = i * s.c[1]
Times(x, r) == IF x[1] % r[2] = 0 THEN <<(x[1] \div r[2]) * r[1], x[2]>> ELSE <<x[1] * r[1], x[2] * r[2]>>
TInit == BInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ p = 0 /\ a = 1 /\ rejs = 0 /\ all = 0
         /\ h = IF Len(Traces[tr].ev) = 0 THEN <<0, 1>> ELSE <<Traces[tr].ev[1].h, 1>>
\* (in thousandths, up to the rounding of the extrapolation) the state advances by the extrapolated increment of levels 0..k
Moved(k) ==
  IF Sys THEN /\ Abs(E.dy[1] - 3000) <= 1
              /\ \A m \in 1..k : Abs(E.dy[m + 1]) <= 5
              /\ Abs(E.dy[k + 2] - (IF k % 2 = 0 THEN 1000 ELSE -1000)) <= 20
  ELSE /\ E.dt = h[1]
       /\ E.dy[1] = E.dt
       /\ E.dy[2] = E.dt
Step ==
  /\ l <= Len(Ev)
  /\ LET k == EndLevel(Errs)
         ok == Verdict(k, Errs[k]) = "accept"
         f == Limited(2 * k + 1, NewRatio(k, Ratio, ok))
     IN /\ Len(E.seqs) >= p + k + 1
        /\ \A j \in 0..k : SeqOk(E.seqs[p + j + 1], j)
        /\ Attempt(Errs, Ratio, k, ok)
        /\ all' = all + 1 /\ rejs' = rejs + (IF ok THEN 0 ELSE 1)
        /\ IF ok THEN
             /\ Len(E.seqs) = p + k + 1
             /\ Moved(k)
             /\ LET x == Times(h, f) IN x[2] = 1 /\ E.next = x[1]
             /\ l' = l + 1 /\ p' = 0 /\ a' = 1
             /\ h' = IF l < Len(Ev) THEN <<Ev[l + 1].h, 1>> ELSE h
           ELSE l' = l /\ p' = p + k + 1 /\ a' = a + 1 /\ h' = Times(h, f)
  /\ tr' = tr
Done == /\ l > Len(Ev)
        /\ Traces[tr].tol = <<1, 2>>
        /\ Abs(Traces[tr].rej * all - 1000000 * rejs) <= all
        /\ UNCHANGED tv
TSpec == TInit /\ [][Step \/ Done]_tv
==============================================================================
