------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ PInit
Do == CASE E.e = "cb" -> CommitBegin(E.k)
        [] E.e = "ce" -> CommitEnd(E.k, E.v)
        [] E.e = "in" -> Start(E.k, T.W)
        [] E.e = "out" -> Finish(E.k)
        [] E.e = "got" -> Result(E.k, E.v, T.exc)
        [] E.e = "quit" -> Quit
        [] E.e = "end" -> End
        (* the queue takes its 1000 tasks (one more or less is the queue's business), then refuses *)
        [] E.e = "limit" -> E.k \in 999..1001 /\ E.k + E.v = 1000 + T.a /\ Quit
        [] E.e = "again" -> E.k = 0 /\ Quit
        [] OTHER -> FALSE
TNext == \/ l <= Len(T.ev) /\ Do /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(T.ev) /\ over /\ UNCHANGED <<plvars, tr, l>>
TSpec == TInit /\ [][TNext]_<<plvars, tr, l>>
=============================================================================
