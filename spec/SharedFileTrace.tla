--------------------------- MODULE SharedFileTrace ---------------------------
EXTENDS SharedFile, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ FInit
Do == CASE E.e = "wb" -> WriteBegin(E.v)
        [] E.e = "we" -> WriteEnd(E.v)
        [] E.e = "content" -> Content(E.s)
        [] E.e = "file" -> FileHas(E.v)
        [] E.e = "rb" -> ReadBegin(E.t)
        [] E.e = "re" -> ReadEnd(E.t, E.v, E.ok)
        [] E.e = "end" -> End
        [] E.e = "left" -> Left
        [] E.e = "ret" -> Return
        [] OTHER -> FALSE
TNext == \/ l <= Len(T.ev) /\ Do /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(T.ev) /\ over /\ UNCHANGED <<fvars, tr, l>>
TSpec == TInit /\ [][TNext]_<<fvars, tr, l>>
=============================================================================
