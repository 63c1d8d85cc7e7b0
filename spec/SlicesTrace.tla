----------------------------- MODULE SlicesTrace -----------------------------
EXTENDS Slices, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E  == Ev[l]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ kind = "step" /\ start = 0 /\ end = 0 /\ num = 1 /\ base = 2
         /\ calls = 0 /\ k = 0 /\ fires = 0 /\ late = FALSE
TNext == \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr
            /\ \/ E.e = "set"  /\ Configure(E.kind, E.start, E.end, E.num, E.base)
               \/ E.e = "call" /\ Call(E.t, E.fired) /\ E.args   \* args: the operation saw the same system and step
                  /\ (E.fired \/ ~E.ret)                          \* a condition that is not asked says "do not stop"
         \/ l > Len(Ev) /\ UNCHANGED <<svars, tr, l>>
TSpec == TInit /\ [][TNext]_<<svars, tr, l>>
=============================================================================
