----------------------------- MODULE RunLoopTrace -----------------------------
(* {"cfg":{...},"ev":[{"e":"start"|"cond"|"op"|"pre"|"iter"|"post"|"stop", ...}]} *)
EXTENDS RunLoop, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
More == l <= Len(Ev)
E == Ev[l]
Take(e) == More /\ E.e = e /\ l' = l + 1 /\ tr' = tr
Quiet == UNCHANGED <<tr, l>>
t_ == tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tr].cfg)
Seen == E.t = t /\ E.h = h
TNext == \/ Take("start") /\ E.i = i /\ Seen /\ StartOp
         \/ Started /\ Quiet
         \/ Arrived /\ ~(More /\ E.e = "cond") /\ Quiet
         \/ Take("cond") /\ E.i = i /\ Seen /\ Cond(E.r)
         \/ Checked /\ (hit => ~(More /\ E.e = "cond")) /\ Quiet
         \/ Take("op") /\ E.i = i /\ Seen /\ Op
         \/ OpsDone /\ Quiet
         \/ Take("pre") /\ E.t = t /\ Pre
         \/ Take("iter") /\ E.t = t /\ E.h = h /\ Iterate(E.dt, E.next)
         \/ Take("post") /\ E.t = t /\ Post
         \/ Take("stop") /\ E.i = i /\ Seen /\ StopOp
         \/ Stopped /\ Quiet
         \/ pc = "done" /\ ~More /\ UNCHANGED <<rvars, tr, l>>
TSpec == TInit /\ [][TNext]_<<rvars, tr, l>>
=============================================================================
