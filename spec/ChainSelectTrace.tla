-------------------------- MODULE ChainSelectTrace --------------------------
(* Trace: {"n":N,"pos":[[x,y,z]..],"idx":[..]}.  The order in which the real   *)
(* code grew the chain is not logged; TLC infers it: the sub-chain lo..hi of   *)
(* idx must grow from a single link to the whole by Seed/Extend steps of       *)
(* ChainSelect.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, lo, hi
tvars == <<t, lo, hi>>
Tr   == Traces[t]
N    == Len(Tr.pos)
Idx(i) == Tr.idx[i]
Sq(x) == x * x
D(a, b) == LET p == Tr.pos[a + 1] q == Tr.pos[b + 1]
           IN Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Part == 0..(N - 1)
IsPerm == Len(Tr.idx) = N /\ {Tr.idx[i] : i \in 1..N} = Part
FreeSet == Part \ {Tr.idx[i] : i \in lo..hi}
(* the shortest extension available from either end *)
Best == CHOOSE m \in {D(Idx(lo), f) : f \in FreeSet} \cup {D(Idx(hi), f) : f \in FreeSet} :
          \A f \in FreeSet : m <= D(Idx(lo), f) /\ m <= D(Idx(hi), f)

TInit == /\ t \in 1..Len(Traces) /\ lo \in 1..(Len(Traces[t].idx) - 1) /\ hi = lo + 1
         /\ IsPerm
         /\ \A a, b \in Part : a # b => D(Idx(lo), Idx(hi)) <= D(a, b)
Front == /\ lo > 1 /\ D(Idx(lo - 1), Idx(lo)) = Best /\ lo' = lo - 1 /\ UNCHANGED <<t, hi>>
Back  == /\ hi < N /\ D(Idx(hi + 1), Idx(hi)) = Best /\ hi' = hi + 1 /\ UNCHANGED <<t, lo>>
TNext == Front \/ Back
TSpec == TInit /\ [][TNext]_tvars

ASSUME TLCSet(42, {})
Note == (lo = 1 /\ hi = N) => TLCSet(42, TLCGet(42) \cup {t})
Report == PrintT(<<"ACCEPTED", TLCGet(42)>>)
=============================================================================
