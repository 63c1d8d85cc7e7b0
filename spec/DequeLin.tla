------------------------------ MODULE DequeLin ------------------------------
(* The concurrent deque: every operation takes effect at one moment between    *)
(* its invocation and its response. A pop waits while the deque is empty and    *)
(* not stopped; once stopped it gives up.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, d, stopped, pend     \* pend: set of <<thread, op, value, done, ok, result>>
T == Traces[tr]
E == T.ev[l]
vars == <<tr, l, d, stopped, pend>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ d = <<>> /\ stopped = FALSE /\ pend = {}
Invoke == /\ l <= Len(T.ev) /\ E.e = "inv" /\ pend' = pend \cup {<<E.t, E.op, E.v, FALSE, 0, 0>>} /\ l' = l + 1 /\ UNCHANGED <<tr, d, stopped>>
Effect == \E p \in pend :
  /\ ~p[4]
  /\ LET fin(ok, v) == pend' = (pend \ {p}) \cup {<<p[1], p[2], p[3], TRUE, ok, v>>} IN
     CASE p[2] = "pushb" -> d' = Append(d, p[3]) /\ fin(1, 0) /\ UNCHANGED stopped
       [] p[2] = "pushf" -> d' = <<p[3]>> \o d /\ fin(1, 0) /\ UNCHANGED stopped
       [] p[2] = "popf"  -> IF stopped THEN fin(0, -1) /\ UNCHANGED <<d, stopped>>
                            ELSE d # <<>> /\ fin(1, d[1]) /\ d' = Tail(d) /\ UNCHANGED stopped
       [] p[2] = "popb"  -> IF stopped THEN fin(0, -1) /\ UNCHANGED <<d, stopped>>
                            ELSE d # <<>> /\ fin(1, d[Len(d)]) /\ d' = SubSeq(d, 1, Len(d) - 1) /\ UNCHANGED stopped
       [] p[2] = "empty" -> fin(IF d = <<>> THEN 1 ELSE 0, 0) /\ UNCHANGED <<d, stopped>>
       [] p[2] = "stop"  -> stopped' = TRUE /\ fin(1, 0) /\ UNCHANGED d
  /\ UNCHANGED <<tr, l>>
Respond == /\ l <= Len(T.ev) /\ E.e = "res"
           /\ \E p \in pend : p[1] = E.t /\ p[4] /\ p[5] = E.k /\ p[6] = E.v /\ pend' = pend \ {p}
           /\ l' = l + 1 /\ UNCHANGED <<tr, d, stopped>>
(* a history may only get stuck where every thread waits in a pop of an empty, unstopped deque *)
Stuck == /\ l <= Len(T.ev) /\ E.e = "deadlock"
         /\ ~stopped /\ d = <<>> /\ pend # {} /\ \A p \in pend : ~p[4] /\ p[2] \in {"popf", "popb"}
         /\ l' = l + 1 /\ UNCHANGED <<tr, d, stopped, pend>>
End == l <= Len(T.ev) /\ E.e = "end" /\ pend = {} /\ l' = l + 1 /\ UNCHANGED <<tr, d, stopped, pend>>
TNext == Invoke \/ Effect \/ Respond \/ Stuck \/ End
TSpec == Init /\ [][TNext]_vars
ASSUME TLCSet(42, {})
Note == (l > Len(T.ev)) => TLCSet(42, TLCGet(42) \cup {tr})
Report == PrintT(<<"ACCEPTED", TLCGet(42)>>)
=============================================================================
