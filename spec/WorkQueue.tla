----------------------------- MODULE WorkQueue -----------------------------
(* The waiting discipline shared by the thread pool, the concurrent deque and  *)
(* the asynchronous output pipe: one lock, one condition, a queue and a stop    *)
(* flag. Every step is one synchronisation operation.                            *)
(*   StopLocked: the stop flag is set while holding the lock                      *)
(*   Drain:      a stopped worker first takes what is left (the pipe)              *)
(*   FlagsFirst: the flags are initialised before the workers start                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, P, K, StopLocked, Drain, FlagsFirst, WaitIsLoop
Workers == 1..W
Producers == {100 + p : p \in 1..P}
Main == 0
VARIABLES lock,      \* holder, or -1
          q, stop, waiting, pc, left, taken, dropped
vars == <<lock, q, stop, waiting, pc, left, taken, dropped>>
Procs == Workers \cup Producers \cup {Main}
Item(p) == <<p, K - left[p]>>
Init == /\ lock = -1 /\ q = <<>> /\ waiting = {} /\ taken = <<>> /\ dropped = {}
        /\ stop = ~FlagsFirst                       \* uninitialised memory reads as true
        /\ pc = [x \in Procs |-> IF x \in Workers THEN "lock" ELSE IF x = Main THEN (IF FlagsFirst THEN "feed" ELSE "init") ELSE "push"]
        /\ left = [p \in Producers |-> K]
Go(x, s) == pc' = [pc EXCEPT ![x] = s]
InitFlags == pc[Main] = "init" /\ stop' = FALSE /\ Go(Main, "feed") /\ UNCHANGED <<lock, q, waiting, left, taken, dropped>>
(* producers start once the object exists *)
PLock(p) == pc[p] = "push" /\ left[p] > 0 /\ lock = -1 /\ pc[Main] \notin {"init"} /\ lock' = p /\ Go(p, "put") /\ UNCHANGED <<q, stop, waiting, left, taken, dropped>>
Put(p)   == pc[p] = "put" /\ q' = Append(q, Item(p)) /\ left' = [left EXCEPT ![p] = @ - 1] /\ lock' = -1 /\ Go(p, "notify") /\ UNCHANGED <<stop, waiting, taken, dropped>>
Wake(S)  == pc' = [x \in Procs |-> IF x \in S THEN "lock" ELSE pc[x]]
Notify(p) == /\ pc[p] = "notify"
             /\ IF waiting = {} THEN Go(p, "push") /\ UNCHANGED waiting
                ELSE \E w \in waiting : waiting' = waiting \ {w} /\ pc' = [pc EXCEPT ![p] = "push", ![w] = IF WaitIsLoop THEN "lock" ELSE "relock"]
             /\ UNCHANGED <<lock, q, stop, left, taken, dropped>>
WLock(w)  == pc[w] = "lock" /\ lock = -1 /\ lock' = w /\ Go(w, "check") /\ UNCHANGED <<q, stop, waiting, left, taken, dropped>>
WRelock(w) == pc[w] = "relock" /\ lock = -1 /\ lock' = w /\ Go(w, IF stop THEN "leave" ELSE "take") /\ UNCHANGED <<q, stop, waiting, left, taken, dropped>>
Check(w)  == pc[w] = "check" /\ Go(w, IF stop THEN "leave" ELSE IF q = <<>> THEN "sleep" ELSE "take") /\ UNCHANGED <<lock, q, stop, waiting, left, taken, dropped>>
Sleep(w)  == pc[w] = "sleep" /\ waiting' = waiting \cup {w} /\ lock' = -1 /\ Go(w, "asleep") /\ UNCHANGED <<q, stop, left, taken, dropped>>
Take(w)   == pc[w] = "take" /\ Assert(q # <<>>, "taken from an empty queue") /\ taken' = Append(taken, q[1]) /\ q' = Tail(q) /\ lock' = -1 /\ Go(w, "lock") /\ UNCHANGED <<stop, waiting, left, dropped>>
Leave(w)  == /\ pc[w] = "leave"
             /\ IF Drain THEN taken' = taken \o q /\ q' = <<>> /\ UNCHANGED dropped
                ELSE UNCHANGED <<taken, q, dropped>>
             /\ lock' = -1 /\ Go(w, "done") /\ UNCHANGED <<stop, waiting, left>>
(* the owner: waits for the producers, then stops and joins *)
Feed    == pc[Main] = "feed" /\ (\A p \in Producers : left[p] = 0 /\ pc[p] = "push") /\ Go(Main, IF StopLocked THEN "slock" ELSE "sstop") /\ UNCHANGED <<lock, q, stop, waiting, left, taken, dropped>>
SLock   == pc[Main] = "slock" /\ lock = -1 /\ lock' = Main /\ Go(Main, "sstop") /\ UNCHANGED <<q, stop, waiting, left, taken, dropped>>
SStop   == pc[Main] = "sstop" /\ stop' = TRUE /\ lock' = (IF StopLocked THEN -1 ELSE lock) /\ Go(Main, "swake") /\ UNCHANGED <<q, waiting, left, taken, dropped>>
SWake   == pc[Main] = "swake" /\ waiting' = {} /\ pc' = [x \in Procs |-> IF x \in waiting THEN "lock" ELSE IF x = Main THEN "join" ELSE pc[x]] /\ UNCHANGED <<lock, q, stop, left, taken, dropped>>
Join    == pc[Main] = "join" /\ (\A w \in Workers : pc[w] = "done") /\ dropped' = {q[i] : i \in DOMAIN q} /\ Go(Main, "end") /\ UNCHANGED <<lock, q, stop, waiting, left, taken>>
Over    == pc[Main] = "end" /\ UNCHANGED vars
Next == \/ InitFlags \/ Feed \/ SLock \/ SStop \/ SWake \/ Join \/ Over
        \/ \E p \in Producers : PLock(p) \/ Put(p) \/ Notify(p)
        \/ \E w \in Workers : WLock(w) \/ WRelock(w) \/ Check(w) \/ Sleep(w) \/ Take(w) \/ Leave(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A x \in Workers : SF_vars(WLock(x))
Once == \A i, j \in DOMAIN taken : i # j => taken[i] # taken[j]
ProducerOrder == \A i, j \in DOMAIN taken : i < j /\ taken[i][1] = taken[j][1] => taken[i][2] < taken[j][2]
Exclusive == Cardinality({x \in Procs : pc[x] \in {"put", "check", "sleep", "take", "leave"}}) <= 1
NothingLost == Drain /\ pc[Main] = "end" => Len(taken) = P * K
Accounted == pc[Main] = "end" => Len(taken) + Cardinality(dropped) = P * K
Ends == <>(pc[Main] = "end")
=============================================================================
