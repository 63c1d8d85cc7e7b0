--------------------------- MODULE HelpersTrace ---------------------------
EXTENDS Helpers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E == Ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = <<<<>>, <<>>, <<>>>>
Unit == 8                  \* numbers are in eighths
Pure == CASE E.op \in {"print", "csv", "display", "std", "tuple", "array", "vector", "small"} -> E.r = Text(E.op, E.v) /\ E.same
          [] E.op \in {"read", "sread", "tie"} -> E.r = SubSeq(E.v, 1, Len(E.v) - E.cut) /\ E.good = (E.cut = 0) /\ E.same
          [] E.op = "min" -> E.r = Min(E.a, E.b)
          [] E.op = "max" -> E.r = Max(E.a, E.b)
          [] E.op = "abs" -> E.r = Mag(E.a)
          [] E.op = "range" -> E.r = Range(E.lo, E.a, E.hi)
          [] E.op = "step" -> E.r = Unit * Step(E.a)
          [] E.op = "sign" -> E.r = Unit * Sign(E.a)
          [] E.op = "iseq" -> E.r = (Mag(E.d) < 4)
          [] E.op = "limits" -> E.r = <<1, 1, 1>>
          [] E.op = "bisect" -> Between(E.root, E.lo, E.hi) /\ Mag(E.r) <= 4
          [] E.op = "newton" -> Mag(E.r) <= 8
Change == CASE E.op \in {"emplace", "push"} -> Append2(E.i, E.x)
            [] E.op = "resize" -> Resize(E.who, E.n)
            [] E.op = "clear" -> Clear(E.who)
            [] E.op = "reserve" -> s' = s /\ \A k \in 1..3 : E.who[k] => E.cap[k] >= E.n
            [] E.op = "fit" -> s' = s
Do == (IF E.op \in {"emplace", "push", "resize", "clear", "reserve", "fit"} THEN Change ELSE Pure /\ s' = s) /\ s' = E.s
TNext == \/ l <= Len(Ev) /\ Do /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<s, tr, l>>
TSpec == TInit /\ [][TNext]_<<s, tr, l>>
=============================================================================
