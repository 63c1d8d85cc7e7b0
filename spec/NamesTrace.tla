---------------------------- MODULE NamesTrace ----------------------------
EXTENDS Names, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E == Ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ now = Traces[tr].now /\ given = <<>>
Do == CASE E.op = "pass" -> Pass(E.x)
        [] E.op = "auto" -> Auto(E.p, E.r)
        [] E.op = "make" -> E.r = Made(E.p, E.x, ".dat") /\ UNCHANGED <<now, given>>
        [] E.op = "ext"  -> E.r = Made(E.p, E.x, ".b" \o E.p) /\ UNCHANGED <<now, given>>
TNext == \/ l <= Len(Ev) /\ Do /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<now, given, tr, l>>
TSpec == TInit /\ [][TNext]_<<now, given, tr, l>>
=============================================================================
