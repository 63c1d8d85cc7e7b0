-------------------------------- MODULE Pool --------------------------------
(* A pool of W workers with a bounded queue, as seen from outside.             *)
(*   a committed task runs exactly once, on a worker, after its commit began;   *)
(*   tasks are taken in the order of their commits; at most W run at a time;     *)
(*   its result (or exception) reaches the committer's future;                    *)
(*   leaving the program ends the pool: no task runs afterwards, and it ends.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES now, begun, accepted, started, finished, over   \* begun, accepted: sets of <<task, moment>>
plvars == <<now, begun, accepted, started, finished, over>>
PInit == now = 0 /\ begun = {} /\ accepted = {} /\ started = {} /\ finished = {} /\ over = FALSE
Tick == now' = now + 1
Tasks(s) == {p[1] : p \in s}
Begun(k) == CHOOSE p \in begun : p[1] = k
CommitBegin(k) == ~over /\ k \notin Tasks(begun) /\ begun' = begun \cup {<<k, now>>} /\ Tick /\ UNCHANGED <<accepted, started, finished, over>>
CommitEnd(k, ok) == /\ k \in Tasks(begun) /\ k \notin Tasks(accepted) /\ ok = 1     \* the queue is never full in these histories
                    /\ accepted' = accepted \cup {<<k, now>>} /\ Tick /\ UNCHANGED <<begun, started, finished, over>>
(* tasks whose commit was over before the commit of k began *)
Before(k) == {p[1] : p \in {q \in accepted : q[2] < Begun(k)[2]}}
Start(k, W) == /\ ~over /\ k \in Tasks(begun) /\ k \notin started
               /\ Cardinality(started \ finished) < W
               /\ Cardinality(Before(k) \ started) < W       \* each taken by another worker
               /\ started' = started \cup {k} /\ Tick /\ UNCHANGED <<begun, accepted, finished, over>>
Finish(k) == ~over /\ k \in started /\ k \notin finished /\ finished' = finished \cup {k} /\ Tick /\ UNCHANGED <<begun, accepted, started, over>>
Result(k, v, exc) == /\ k \in finished /\ v = (IF exc = 1 /\ k % 2 = 1 THEN -100 ELSE k * 10 + 3)
                     /\ Tick /\ UNCHANGED <<begun, accepted, started, finished, over>>
Quit == Tick /\ UNCHANGED <<begun, accepted, started, finished, over>>
End == started = finished /\ over' = TRUE /\ Tick /\ UNCHANGED <<begun, accepted, started, finished>>
=============================================================================
