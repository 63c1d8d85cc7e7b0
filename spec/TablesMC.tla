------------------------------ MODULE TablesMC ------------------------------
(* Two writers and their copies, any order of records and texts: a reader who    *)
(* takes the columns by their names gets exactly what was recorded, in order.      *)
EXTENDS Tables, TLC
CONSTANTS Max
Rec == {[time |-> "a", id |-> "b"], [time |-> "c", id |-> "b"]}
Heads == {<<"time", "id">>, <<"id", "time">>}
VARIABLES head, file, hist
Init == head \in [1..2 -> Heads] /\ file = [w \in 1..2 |-> <<>>] /\ hist = [w \in 1..2 |-> <<>>]
Put(w, ls) == file' = [file EXCEPT ![w] = @ \o ls]
Write(w) == \E r \in Rec : /\ Put(w, (IF file[w] = <<>> THEN <<head[w]>> ELSE <<>>) \o <<Row(head[w], r)>>)
                           /\ hist' = [hist EXCEPT ![w] = Append(@, r)]
Next == (\E w \in 1..2 : Len(hist[w]) < Max /\ Write(w)) /\ UNCHANGED head
Spec == Init /\ [][Next]_<<head, file, hist>>
At(h, l, n) == l[CHOOSE k \in 1..Len(h) : h[k] = n]
ReadBack(w) == LET f == file[w] IN IF f = <<>> THEN <<>> ELSE [k \in 1..(Len(f) - 1) |-> [time |-> At(f[1], f[k + 1], "time"), id |-> At(f[1], f[k + 1], "id")]]
Faithful == \A w \in 1..2 : ReadBack(w) = hist[w]
Apart == [][\E w \in 1..2 : file'[w] = file[w]]_file
=============================================================================
