----------------------------- MODULE SharedFile -----------------------------
(* A file shared by threads, directly or through an asynchronous pipe, is an    *)
(* atomic queue of whole records: an operation takes effect at one moment       *)
(* between its beginning and its end.                                            *)
(*   writing: the file ends up with exactly the written records, each whole,      *)
(*            in an order that agrees with operations that did not overlap;        *)
(*   reading: every record is handed out once, in an order that agrees with         *)
(*            operations that did not overlap, and the end is reported only when      *)
(*            (and always when) every record has been handed out.                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES now,        \* number of events so far
          began, ended,   \* writing: value -> moment (0: not yet)
          file,       \* what reading starts from: <<0, 1, ..., K-1>>
          reads,      \* finished reads: <<began, ended, value or -1>>
          pend,       \* reads in progress: <<thread, moment at which its read began>>
          over
fvars == <<now, began, ended, file, reads, pend, over>>
FInit == /\ now = 0 /\ began = [v \in {} |-> 0] /\ ended = [v \in {} |-> 0] /\ file = <<>> /\ reads = <<>> /\ pend = {} /\ over = FALSE
Tick == now' = now + 1
Put(f, v, x) == [u \in DOMAIN f \cup {v} |-> IF u = v THEN x ELSE f[u]]
WriteBegin(v) == v \notin DOMAIN began /\ began' = Put(began, v, now) /\ Tick /\ UNCHANGED <<ended, file, reads, pend, over>>
WriteEnd(v)   == v \in DOMAIN began /\ v \notin DOMAIN ended /\ ended' = Put(ended, v, now) /\ Tick /\ UNCHANGED <<began, file, reads, pend, over>>
Content(s) == /\ DOMAIN ended = DOMAIN began
              /\ Len(s) = Cardinality(DOMAIN began)
              /\ {s[i] : i \in DOMAIN s} = DOMAIN began
              /\ (\A i \in DOMAIN s, j \in DOMAIN s : i < j => ~(ended[s[j]] < began[s[i]])) = TRUE
              /\ Tick /\ UNCHANGED <<began, ended, file, reads, pend, over>>
FileHas(k) == file' = [i \in 1..k |-> i - 1] /\ Tick /\ UNCHANGED <<began, ended, reads, pend, over>>
ReadBegin(t) == (\A p \in pend : p[1] # t) /\ pend' = pend \cup {<<t, now>>} /\ Tick /\ UNCHANGED <<began, ended, file, reads, over>>
ReadEnd(t, v, ok) == \E p \in pend :
  /\ p[1] = t
  /\ IF ok = 1 THEN v \in 0..(Len(file) - 1) /\ \A k \in DOMAIN reads : reads[k][3] # v ELSE v = -1
  /\ reads' = Append(reads, <<p[2], now, v>>)
  /\ pend' = pend \ {p}
  /\ Tick /\ UNCHANGED <<began, ended, file, over>>
ReadEverything == pend = {} /\ \A v \in 0..(Len(file) - 1) : \E k \in DOMAIN reads : reads[k][3] = v
ReadsInOrder == \A a \in DOMAIN reads, b \in DOMAIN reads :
   /\ reads[a][3] >= 0 /\ reads[b][3] >= 0 /\ reads[a][3] < reads[b][3] => ~(reads[b][2] < reads[a][1])
   /\ reads[a][3] = -1 /\ reads[b][3] >= 0 => ~(reads[a][2] < reads[b][1])
\* (compared with TRUE so that TLC evaluates the quantifiers as values)
End == (ReadEverything /\ ReadsInOrder) = TRUE /\ Tick /\ UNCHANGED <<began, ended, file, reads, pend, over>>
Left == ReadsInOrder = TRUE /\ Tick /\ UNCHANGED <<began, ended, file, reads, pend, over>>
Return == ~over /\ over' = TRUE /\ Tick /\ UNCHANGED <<began, ended, file, reads, pend>>
=============================================================================
