--------------------------- MODULE SymplecticTrace ---------------------------
(* One trace per (method, step size): the drifts and kicks it performed, divided by the step size. *)
EXTENDS Symplectic, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, q, part
T == Traces[tr]
E == T.ev[l]
\* the words are shared out among Parts runs of each trace
Parts == 16
Share(p, k) == {w \in LyndonUpTo(p) : Num(w, 1) % Parts = k}
W2 == [k \in 0..Parts - 1 |-> Share(2, k)]
W4 == [k \in 0..Parts - 1 |-> Share(4, k)]
W6 == [k \in 0..Parts - 1 |-> Share(6, k)]
W8 == [k \in 0..Parts - 1 |-> Share(8, k)]
W10 == [k \in 0..Parts - 1 |-> Share(10, k)]
W == CASE T.order = 2 -> W2[part] [] T.order = 4 -> W4[part] [] T.order = 6 -> W6[part] [] T.order = 8 -> W8[part] [] T.order = 10 -> W10[part]
       [] OTHER -> Assert(FALSE, "order")
vars == <<tr, l, q, part>>
TInit == tr \in 1..Len(Traces) /\ part \in (IF T.same THEN {0} ELSE 0..Parts - 1) /\ l = 1 /\ q = [w \in W |-> Start(w)]
\* other step sizes and number types perform the same list, which is not judged again
Same == /\ l <= Len(T.ev) /\ T.same
        /\ E.op = E.rop /\ Small(Sub(E.c, E.r), 1)
        /\ l' = l + 1 /\ UNCHANGED <<tr, part, q>>
Step == /\ l <= Len(T.ev) /\ ~T.same
        /\ LET pw == Powers(E.c, 1, T.order, <<One>>)
               x == IF E.op = "drift" THEN 0 ELSE 1
           IN q' = TLCEval([w \in W |-> Apply(w, q[w], x, pw)])
        /\ l' = l + 1 /\ UNCHANGED <<tr, part>>
\* at the end: the order that is promised, and the same method backwards
Judge == /\ \A w \in W : Small(Residual(w, q[w]), IF Len(w) <= 1 THEN 64 ELSE 512)
         /\ \A i \in 1..Len(T.ev) : LET j == Len(T.ev) + 1 - i
                                    IN T.ev[i].op = T.ev[j].op /\ Small(Sub(T.ev[i].c, T.ev[j].c), 64)
         /\ T.order = T.want
Done == l = Len(T.ev) + 1 /\ (T.same \/ Judge) /\ q' = <<>> /\ l' = l + 1 /\ UNCHANGED <<tr, part>>
Over == l = Len(T.ev) + 2 /\ UNCHANGED vars
TSpec == TInit /\ [][Step \/ Same \/ Done \/ Over]_vars
==============================================================================
