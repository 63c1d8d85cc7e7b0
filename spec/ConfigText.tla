---------------------------- MODULE ConfigText ----------------------------
(* The language of configuration files, over texts as sequences of character    *)
(* codes, and the reading of decimal numbers (in thousandths).                    *)
EXTENDS Integers, Sequences, FiniteSets
Space == {9, 10, 11, 12, 13, 32}
NL == 10
Has(s, c) == \E k \in 1..Len(s) : s[k] = c
First(s, c) == CHOOSE k \in 1..Len(s) : s[k] = c /\ \A j \in 1..(k - 1) : s[j] # c
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>> ELSE IF ~Has(s, NL) THEN <<s>>
            ELSE <<SubSeq(s, 1, First(s, NL) - 1)>> \o Lines(SubSeq(s, First(s, NL) + 1, Len(s)))
Strip(s) == SelectSeq(s, LAMBDA c : c \notin Space)
Entry(s, dv) == [key |-> SubSeq(s, 1, First(s, dv) - 1), val |-> SubSeq(s, First(s, dv) + 1, Len(s))]
Counts(s, cm) == s # <<>> /\ s[1] # cm
(* the entries of a text, in order *)
Entries(text, dv, cm) == LET ls == Lines(text)
                             st == [k \in 1..Len(ls) |-> Strip(ls[k])]
                             ok == SelectSeq(st, LAMBDA s : Counts(s, cm) /\ Has(s, dv))
                         IN [k \in 1..Len(ok) |-> Entry(ok[k], dv)]
Defined(es, key) == \E k \in 1..Len(es) : es[k].key = key
(* the last definition of a key counts *)
Lookup(es, key) == es[CHOOSE k \in 1..Len(es) : es[k].key = key /\ \A j \in (k + 1)..Len(es) : es[j].key # key].val
Digit(c) == c - 48
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + Digit(s[Len(s)])
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
Cut(s, c) == IF Has(s, c) THEN <<SubSeq(s, 1, First(s, c) - 1), SubSeq(s, First(s, c) + 1, Len(s))>> ELSE <<s, <<>>>>
Sign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN [neg |-> s[1] = 45, r |-> Tail(s)] ELSE [neg |-> FALSE, r |-> s]
Signed(s) == IF Sign(s).neg THEN -Nat10(Sign(s).r) ELSE Nat10(Sign(s).r)
(* [+-] digits [. digits up to three] [e [+-] digits], exponent at least minus what the digits allow *)
Milli(s) == LET me == Cut(s, 101)
                g  == Sign(me[1])
                fr == Cut(g.r, 46)
                m  == Nat10(fr[1]) * 1000 + Nat10(fr[2]) * P10(3 - Len(fr[2]))
                ex == Signed(me[2])
                v  == IF ex >= 0 THEN m * P10(ex) ELSE m \div P10(-ex)
            IN IF g.neg THEN -v ELSE v
Strings == {"s", "c", "S", "o"}
Means(ty, val, r) == IF ty \in Strings THEN r.k = "str" /\ r.s = val ELSE r.k = "num" /\ r.i = Milli(val)
GetOK(t, e) == LET es == Entries(t.text, t.dv, t.cm)
               IN IF e.miss = 1 \/ ~Defined(es, e.key) THEN e.r.k = "gone" ELSE Means(e.ty, Lookup(es, e.key), e.r)
ArgOK(t, e) == IF Len(t.args) # t.decl THEN e.r.k = "gone" ELSE Means(e.ty, t.args[e.i], e.r)
=============================================================================
