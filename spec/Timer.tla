------------------------------- MODULE Timer -------------------------------
(* Stop watches. Each adds up the time during which it ran; the time that passes is not the time of day, *)
(* which somebody may set while it runs. Starting one that runs begins its current interval anew.      *)
EXTENDS Integers, Sequences
VARIABLES now, w          \* w: watches [run, since, acc]
Fresh == [run |-> FALSE, since |-> 0, acc |-> 0]
Value(t) == t.acc + (IF t.run THEN now - t.since ELSE 0)
Start(k) == w' = [w EXCEPT ![k].run = TRUE, ![k].since = now] /\ now' = now
Pause(k) == w' = [w EXCEPT ![k] = [run |-> FALSE, since |-> 0, acc |-> Value(w[k])]] /\ now' = now
Reset(k) == w' = [w EXCEPT ![k] = Fresh] /\ now' = now
Copy(k)  == w' = [w EXCEPT ![k] = w[3 - k]] /\ now' = now
Get(k)   == UNCHANGED <<now, w>>
Pass(x)  == now' = now + x /\ w' = w
Jump     == UNCHANGED <<now, w>>
WInit == now = 0 /\ w = <<Fresh, Fresh>>
=============================================================================
