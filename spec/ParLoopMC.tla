----------------------------- MODULE ParLoopMC -----------------------------
(* The design of the library: equal blocks, the last one takes the remainder,  *)
(* all threads joined. Its behaviours are behaviours of ParLoop for every total *)
(* and thread number, and it always returns.                                    *)
EXTENDS ParLoop
CONSTANTS MaxTotal, MaxN, Dropping
VARIABLES spawned, joined
mvars == <<kind, total, n, ix, open, done, ret, spawned, joined>>
Block(k) == LET len == total \div n
                b == k * len
                e == b + len
            IN <<b, IF Dropping THEN (IF e + len > total THEN total ELSE e)
                    ELSE (IF k = n - 1 THEN total ELSE e), -1>>
Call(k) == IF kind = "loop" THEN Block(k) ELSE <<0, 0, IF ix = 1 THEN k ELSE -1>>
Init == /\ kind \in {"loop", "each"} /\ total \in 0..MaxTotal /\ n \in 1..MaxN /\ ix \in {0, 1}
        /\ open = <<>> /\ done = <<>> /\ ret = FALSE /\ spawned = {} /\ joined = {}
        /\ kind = "each" => total = 0
Spawn == \E k \in 0..(n - 1) : k \notin spawned /\ (\A j \in 0..(k - 1) : j \in spawned) /\ spawned' = spawned \cup {k} /\ UNCHANGED <<pvars, joined>>
Start == \E k \in spawned : k \notin joined /\ Call(k) \notin {} /\ Enter(Call(k)[1], Call(k)[2], Call(k)[3]) /\ joined' = joined \cup {k} /\ UNCHANGED spawned
Finish == \E c \in Range(open) : Leave(c[1], c[2], c[3]) /\ UNCHANGED <<spawned, joined>>
Join == spawned = 0..(n - 1) /\ joined = spawned /\ Return /\ UNCHANGED <<spawned, joined>>
Next == Spawn \/ Start \/ Finish \/ Join \/ (ret /\ UNCHANGED mvars)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Returned == ret => open = <<>> /\ (kind = "loop" => Covered(done) = 0..(total - 1)) /\ (kind = "each" => Len(done) = n)
=============================================================================
