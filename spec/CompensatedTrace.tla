------------------------- MODULE CompensatedTrace -------------------------
(* float: p = 24, values as they are. double and long double: relative to a base *)
(* of 2^59 and 2^70, 2^6 times what the mantissa resolves; unit from the base.      *)
EXTENDS Compensated, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Ev == Traces[tr].ev
E  == Ev[l]
Small == Traces[tr].p = 24
Zero == [S |-> 0, A |-> 0, b |-> 0]
Unit(t) == IF Small THEN (t.A \div Pow2(23)) ELSE t.A   \* with a base: A counts the base as its own resolution, 64
(* terms next to a big base are far below it: their own size does not change the unit *)
(* if the compensation is compensated, the largest sum (2^29) sets the unit, not the sizes of all terms *)
Cap(t) == IF Traces[tr].deep = 1 /\ t.A > Pow2(29) THEN [t EXCEPT !.A = Pow2(29)] ELSE t
Next(t) == IF Small THEN Cap(After(t, E.op, E.x, 0))
           ELSE LET n == After(t, E.op, E.x, 64) IN [n EXCEPT !.A = IF E.op \in Fresh THEN 64 ELSE IF E.op \in {"muli", "divi"} THEN n.A ELSE t.A]
(* writing and reading as text keeps the value but not the compensation *)
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Zero
TNext == \/ /\ l <= Len(Ev)
            /\ LET n == Next(s) IN Within(E.r, n.S, Unit(n)) /\ s' = IF E.op = "text" THEN [n EXCEPT !.S = E.r] ELSE n
            /\ l' = l + 1 /\ tr' = tr
         \/ l > Len(Ev) /\ UNCHANGED <<tr, l, s>>
TSpec == TInit /\ [][TNext]_<<tr, l, s>>
=============================================================================
