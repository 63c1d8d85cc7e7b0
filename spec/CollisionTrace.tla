-------------------------- MODULE CollisionTrace --------------------------
EXTENDS Collision, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
T == Traces[tr]
E == T.ev[l]
Now == [t |-> E.t, pos |-> E.pos]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = [t |-> -1, pos |-> <<>>]
Call == E.e = "call" /\ E.touch = (IF Touching(E.pos, T.r) THEN 1 ELSE 0)
At == E.e = "at" /\ IF l = 1 THEN E.t = 0
                    ELSE ~Over(s.t, s.pos, T.r, T.end) /\ Now = StepTo(s.t, s.pos, T.v, T.h, T.end)
TNext == \/ l <= Len(T.ev) /\ (Call \/ At) /\ s' = Now /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(T.ev) /\ Len(T.ev) > 0 /\ (T.ev[1].e = "at" => Over(s.t, s.pos, T.r, T.end)) /\ UNCHANGED <<tr, l, s>>
TSpec == TInit /\ [][TNext]_<<tr, l, s>>
=============================================================================
