---------------------------- MODULE AnomalyTrace ----------------------------
EXTENDS Anomaly, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, kind
T == Traces[tr]
E == T.ev[l]
k == T.k
j == T.j
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ kind = "E"
IsAt(e) == CASE e.to = "E" -> Near(e.v, 1250 * j, 1)
             [] e.to = "M" -> Near(8 * e.v, Mean8(k, j, T.s4, T.U), 9 + k)
             [] e.to = "T" -> IsTrueCos(e.c, k, j, T.cE) /\ SameTurn(e.v, e.s, k, j, T.sE)
(* converting never moves the body *)
Conv == E.e = "conv" /\ E.from = kind /\ kind' = E.to /\ IsAt(E)
Time == E.e = "time" /\ kind' = kind /\ Near(8 * E.v, Abs(Mean8(k, j, T.s4, T.U)), 9 + k)
Type == E.e = "type" /\ kind' = kind /\ E.ty = (IF Ellipse(k) THEN "ellipse" ELSE IF Hyperbola(k) THEN "hyperbola" ELSE "parabola")
Root == E.e = "root" /\ kind' = kind /\ Near(E.v, E.r, 1)
TNext == l <= Len(T.ev) /\ (Conv \/ Time \/ Type \/ Root) /\ l' = l + 1 /\ tr' = tr
TDone == l > Len(T.ev) /\ UNCHANGED <<tr, l, kind>>
TSpec == TInit /\ [][TNext \/ TDone]_<<tr, l, kind>>
=============================================================================
