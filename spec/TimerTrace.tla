---------------------------- MODULE TimerTrace ----------------------------
EXTENDS Timer, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E == Ev[l]
TInit == WInit /\ tr \in 1..Len(Traces) /\ l = 1
Do == CASE E.op = "start" -> Start(E.k)
        [] E.op = "pause" -> Pause(E.k)
        [] E.op = "reset" -> Reset(E.k)
        [] E.op = "copy"  -> Copy(E.k)
        [] E.op = "get"   -> Get(E.k) /\ E.v = Value(w[E.k])
        [] E.op = "pass"  -> Pass(E.x)
        [] E.op = "jump"  -> Jump
TNext == \/ l <= Len(Ev) /\ Do /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<now, w, tr, l>>
TSpec == TInit /\ [][TNext]_<<now, w, tr, l>>
=============================================================================
