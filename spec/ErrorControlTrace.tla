-------------------------- MODULE ErrorControlTrace --------------------------
EXTENDS ErrorControl, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E  == Ev[l]
PidOK ==
  /\ E.hi = 1 /\ E.lo = 1 /\ E.hi0 = 1 /\ E.lo0 = 1
  /\ IF E.k = 0 THEN E.zero = 1 ELSE E.r = Factor(E.k, E.j)
  /\ E.lim = (IF E.below = 1 THEN -1 ELSE IF E.above = 1 THEN 1 ELSE 0)
  /\ E.pr  = <<-1, 0, 0, 0, 1>>
  /\ E.pr0 = <<-1, 0, 0, 0, 1>>
StepOK == IF E.e = "pid" THEN PidOK
          ELSE E.r = Estimate(E.e, E.form, E.at, E.rt, E.a, E.b, E.c, E.K)
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Ev) /\ StepOK /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
