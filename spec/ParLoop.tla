------------------------------ MODULE ParLoop ------------------------------
(* Parallel loops. State: which calls are in progress, which are finished.    *)
(*   loop: the calls job(b, f) cover every index of 0..total-1 exactly once,   *)
(*         by at most n calls; each: exactly n calls (indexed: with 0..n-1);   *)
(*   every call sees the job's captured data and the arguments unharmed, and   *)
(*   the loop returns only when all calls have finished.                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind, total, n, ix,     \* the request
          open,                   \* calls in progress: a sequence (bag) of <<b, f, i>>
          done,                   \* finished calls
          ret
pvars == <<kind, total, n, ix, open, done, ret>>
Range(s) == {s[k] : k \in DOMAIN s}
Remove(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Covered(s) == UNION {c[1]..(c[2] - 1) : c \in Range(s)}
Disjoint(c, s) == \A d \in Range(s) : (c[1]..(c[2] - 1)) \cap (d[1]..(d[2] - 1)) = {}
Enter(b, f, i) ==
  /\ ~ret /\ Len(open) + Len(done) < n
  /\ IF kind = "loop" THEN b <= f /\ (b = f \/ (0 <= b /\ f <= total)) /\ Disjoint(<<b, f, i>>, open \o done) /\ i = -1
     ELSE IF ix = 1 THEN i \in 0..(n - 1) /\ \A d \in Range(open \o done) : d[3] # i
     ELSE i = -1
  /\ open' = Append(open, <<b, f, i>>)
  /\ UNCHANGED <<kind, total, n, ix, done, ret>>
Leave(b, f, i) ==
  /\ \E k \in DOMAIN open : /\ open[k] = <<b, f, i>>
                            /\ \A j \in 1..(k - 1) : open[j] # <<b, f, i>>
                            /\ open' = Remove(open, k)
  /\ done' = Append(done, <<b, f, i>>)
  /\ UNCHANGED <<kind, total, n, ix, ret>>
Return ==
  /\ ~ret /\ open = <<>>
  /\ IF kind = "loop" THEN Covered(done) = 0..(total - 1) ELSE Len(done) = n
  /\ ret' = TRUE
  /\ UNCHANGED <<kind, total, n, ix, open, done>>
=============================================================================
