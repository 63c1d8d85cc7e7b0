----------------------------- MODULE StateShape -----------------------------
(* Number of slots of every flat array a system reads or writes.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Slots(x) == 1 + 3 * x.n * (IF x.dep THEN 3 ELSE 2) + (IF x.regu = "plain" THEN 0 ELSE 2)
VARIABLES tr, l
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l = 1 /\ Traces[tr].lens = <<Slots(Traces[tr])>> /\ l' = 2 /\ tr' = tr
         \/ l = 2 /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
