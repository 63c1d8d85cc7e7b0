----------------------------- MODULE RandomTrace -----------------------------
(* Samples of the real generators, histories of parameter objects over scripted distributions, and  *)
(* first draws of many threads.                                                                     *)
EXTENDS Random, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, k, lo, hi, seen
vars == <<tr, l, s, k, lo, hi, seen>>
T == Traces[tr]
E == T.ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = <<>> /\ k = 1 /\ lo = None /\ hi = None /\ seen = {}
Keep == UNCHANGED <<s, k, lo, hi, seen>>
Hist == E.e = "hist" /\ (Shaped(E.d, E.p, E.ed, E.cnt)) = TRUE /\ Keep
Pair == E.e = "pair" /\ (Independent(Chances(E.d, E.p, E.ed), Chances(E.d2, E.p2, E.ed2), E.cnt)) = TRUE /\ Keep
(* a stream of draws is nobody else's *)
Stream == E.e = "stream" /\ E.f \notin seen /\ seen' = seen \cup {E.f} /\ UNCHANGED <<s, k, lo, hi>>
(* nor do draws made at the same time coincide *)
Race == E.e = "race" /\ E.dup <= 4 /\ Keep
New == E.e = "new" /\ s' = E.s /\ k' = 1 /\ lo' = None /\ hi' = None /\ seen' = seen
Min == E.e = "min" /\ lo' = E.v /\ UNCHANGED <<s, k, hi, seen>>
Max == E.e = "max" /\ hi' = E.v /\ UNCHANGED <<s, k, lo, seen>>
Both == E.e = "both" /\ lo' = E.a /\ hi' = E.b /\ UNCHANGED <<s, k, seen>>
Copy == E.e = "copy" /\ Keep
Draw == /\ E.e = "draw" /\ LET f == First(s, k, lo, hi) IN f > 0 /\ E.v = s[f] /\ k' = f + 1
        /\ UNCHANGED <<s, lo, hi, seen>>
Stuck == E.e = "stuck" /\ First(s, k, lo, hi) = 0 /\ k' = Len(s) + 1 /\ UNCHANGED <<s, lo, hi, seen>>
TNext == l <= Len(T.ev) /\ (Hist \/ Pair \/ Stream \/ Race \/ New \/ Min \/ Max \/ Both \/ Copy \/ Draw \/ Stuck) /\ l' = l + 1 /\ tr' = tr
TDone == l > Len(T.ev) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext \/ TDone]_vars
=============================================================================
