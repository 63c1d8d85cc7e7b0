--------------------------- MODULE AlgebraTrace ---------------------------
EXTENDS Algebra, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(Ev) /\ (IF Traces[tr].k = "V" THEN VecStep(Ev[l]) ELSE ArrStep(Ev[l])) /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
