---------------------------- MODULE UnitsTrace ----------------------------
EXTENDS Units, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E == Ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1
Ok == CASE E.op = "ratio"  -> IsRatio(E.a, E.b, E.r)
        [] E.op = "lit"    -> Close(E.r, Dec(7), 1) /\ Close(E.s, <<25000000, 0>>, 1)
        [] E.op = "const"  -> IsConst(E.a, E.r)
        [] E.op = "radius" -> Close(E.r, Radius(E.a, E.n, E.d), RadiusTol(E.a))
        [] E.op = "elk"    -> IsKozai(E.m[1] + E.m[2], E.a1, E.a2, E.e5, E.r)
TNext == \/ l <= Len(Ev) /\ Ok /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
