--------------------------- MODULE SeqVectorTrace ---------------------------
EXTENDS SeqVector, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, st
Ev == Traces[tr].ev
E  == Ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = <<<<>>, <<>>, <<>>>>
TNext == \/ l <= Len(Ev) /\ E.ok = 1 /\ Traces[tr].left = 0 /\ Step(st, E, E.st) /\ st' = E.st /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l, st>>
TSpec == TInit /\ [][TNext]_<<tr, l, st>>
=============================================================================
