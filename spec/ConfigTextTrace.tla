-------------------------- MODULE ConfigTextTrace --------------------------
EXTENDS ConfigText, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= Len(T.ev) /\ (IF T.k = "F" THEN GetOK(T, T.ev[l]) ELSE ArgOK(T, T.ev[l])) /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(T.ev) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
