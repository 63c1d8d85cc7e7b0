--------------------------- MODULE ConfigTextMC ---------------------------
(* All texts over a small alphabet: a reader that consumes the text one character *)
(* at a time agrees with the definition, and white space or comments change nothing. *)
EXTENDS ConfigText, TLC
CONSTANT MaxLen
Alpha == {97, 61, 35, 32, 10}   \* a = # space newline
VARIABLES text, line, map      \* the reader: the line so far, and the definitions
Init == text = <<>> /\ line = <<>> /\ map = <<>>
Push(m, s) == IF Counts(s, 35) /\ Has(s, 61) THEN Append(m, Entry(s, 61)) ELSE m
Read(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c)
           /\ IF c = NL THEN line' = <<>> /\ map' = Push(map, line)
              ELSE line' = (IF c \in Space THEN line ELSE Append(line, c)) /\ map' = map
Next == \E c \in Alpha : Read(c)
Spec == Init /\ [][Next]_<<text, line, map>>
Agrees == Push(map, line) = Entries(text, 61, 35)
Trailing == Entries(text \o <<NL, 35, 97, 61, 97>>, 61, 35) = Entries(text, 61, 35)
Overrides == LET es == Entries(text \o <<NL, 97, 61, 97>>, 61, 35) IN Lookup(es, <<97>>) = <<97>>
=============================================================================
