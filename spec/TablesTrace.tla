----------------------------- MODULE TablesTrace -----------------------------
EXTENDS Tables, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, at, head, first   \* at: lines of each file already accounted for; first: energy and potential at the first record
T == Traces[tr]
E == T.ev[l]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ at = [f \in 1..Len(Traces[tr].files) |-> 0]
         /\ head = [f \in 1..Len(Traces[tr].files) |-> <<>>] /\ first = [f \in 1..Len(Traces[tr].files) |-> [e |-> 0, u |-> 0]]
F == T.files[E.f]
Lines(n) == SubSeq(F, at[E.f] + 1, at[E.f] + n)
Take(n) == at[E.f] + n <= Len(F) /\ at' = [at EXCEPT ![E.f] = @ + n]
Text == E.e = "text" /\ Take(1) /\ Lines(1) = <<E.words>> /\ UNCHANGED <<head, first>>
(* a table begins with its header, unless text was put there before *)
Rec == /\ E.e = "rec" /\ UNCHANGED first
       /\ LET new == at[E.f] = 0
              k == IF new THEN 1 ELSE 0
              h == IF new THEN F[1] ELSE head[E.f]
          IN /\ Take(Len(E.rows) + k)
             /\ head' = [head EXCEPT ![E.f] = h]
             /\ Header(T.kind, h)
             /\ SubSeq(F, at[E.f] + 1 + k, at[E.f] + Len(E.rows) + k) = Rows(h, E.rows)
Err == /\ E.e = "err" /\ Take(1) /\ UNCHANGED head
       /\ LET e == Energy(E.m, E.p, E.v) u == U(E.m, E.p)
              new == first[E.f].u = 0
              e0 == IF new THEN e ELSE first[E.f].e
              N == F[at[E.f] + 1][2]
          IN /\ first' = (IF new THEN [first EXCEPT ![E.f] = [e |-> e, u |-> u]] ELSE first)
             /\ Len(F[at[E.f] + 1]) = 2 /\ F[at[E.f] + 1][1] = E.t
             /\ IF T.reg = 1 THEN IsRatio(N, 100, U(T.sys[E.s].m, T.sys[E.s].p), u) ELSE IsRatio(N, 100, Abs(e - e0), Abs(e0))
TNext == l <= Len(T.ev) /\ (Text \/ Rec \/ Err) /\ l' = l + 1 /\ tr' = tr
TDone == l > Len(T.ev) /\ (\A f \in 1..Len(T.files) : at[f] = Len(T.files[f])) /\ UNCHANGED <<tr, l, at, head, first>>
TSpec == TInit /\ [][TNext \/ TDone]_<<tr, l, at, head, first>>
=============================================================================
