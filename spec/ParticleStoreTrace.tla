------------------------ MODULE ParticleStoreTrace ------------------------
EXTENDS ParticleStore, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, st
Ev == Traces[tr].ev
E  == Ev[l]
Empty == [t |-> 0, r |-> <<>>]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = <<Empty, Empty>>
TNext == \/ l <= Len(Ev) /\ Step(Traces[tr].kind, st, E) /\ st' = <<Observed(E.st[1]), Observed(E.st[2])>> /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l, st>>
TSpec == TInit /\ [][TNext]_<<tr, l, st>>
=============================================================================
