---------------------------- MODULE ParLoopTrace ----------------------------
EXTENDS ParLoop, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ kind = Traces[tr].kind /\ total = Traces[tr].total /\ n = Traces[tr].n /\ ix = Traces[tr].ix
         /\ open = <<>> /\ done = <<>> /\ ret = FALSE
Do == CASE E.e = "in"  -> /\ E.cap = 42 /\ E.a = (IF kind = "loop" THEN 0 ELSE 7538)
                          /\ Enter(E.b, E.f, E.i)
        [] E.e = "out" -> Leave(E.b, E.f, E.i)
        [] E.e = "ret" -> Return
        [] OTHER       -> FALSE          \* deadlock, race, crash ...
TNext == \/ l <= Len(T.ev) /\ Do /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(T.ev) /\ ret /\ UNCHANGED <<pvars, tr, l>>
TSpec == TInit /\ [][TNext]_<<pvars, tr, l>>
=============================================================================
