------------------------------- MODULE RunEnd -------------------------------
(* What a run leaves behind, whatever the method:                              *)
(*  "end"  : it stops exactly once, within the relative time tolerance of the  *)
(*           end time or because a stop condition said so (stopat-th question) *)
(*  "auto" : the first step chosen for the user is the shortest free fall time *)
(*           over all pairs (sqrt(r^3/(m1+m2)) up to a constant), times the    *)
(*           step scale of the system. sq = 27720 * (h/h_ref)^2; the reference *)
(*           pair has distance one unit and total mass 1.                      *)
(*  "tol"  : the tolerances of the run arguments reach the iterator.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Abs(x) == IF x < 0 THEN -x ELSE x
FreeFall(p, i, j) == (27720 \div (p[i][1] + p[j][1])) * Abs(p[i][2] - p[j][2]) * Abs(p[i][2] - p[j][2]) * Abs(p[i][2] - p[j][2])
Pairs(p) == {<<i, j>> \in (1..Len(p)) \X (1..Len(p)) : i < j}
IsShortest(p, x) == /\ \E q \in Pairs(p) : Abs(x - FreeFall(p, q[1], q[2])) <= 1
                    /\ \A q \in Pairs(p) : x <= FreeFall(p, q[1], q[2]) + 1
EndOK(e) == /\ ~e.endless /\ ~e.nan /\ e.stops = 1
            /\ IF e.stopat < 0 THEN e.off <= 1
               ELSE \/ e.ops = e.stopat + 1
                    \/ e.ops <= e.stopat + 1 /\ e.off <= 1
AutoOK(e) == e.pos /\ IsShortest(e.p, e.sq)
TolOK(e) == e.got = e.want
OK(e) == CASE e.what = "end" -> EndOK(e) [] e.what = "auto" -> AutoOK(e) [] e.what = "tol" -> TolOK(e)

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
TInit == tr \in 1..Len(Traces) /\ l = 1
TNext == \/ l = 1 /\ OK(Traces[tr]) /\ l' = 2 /\ tr' = tr
         \/ l = 2 /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_<<tr, l>>
=============================================================================
