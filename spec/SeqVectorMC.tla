---------------------------- MODULE SeqVectorMC ----------------------------
(* Algebraic laws of the operations over all pairs of short vectors.           *)
EXTENDS SeqVector, TLC, Json, FiniteSets
CONSTANTS MaxLen
VARIABLES st
Vals == {1, 2}
E0(op, x, y, i, j, n, vals) == [op |-> op, x |-> x, y |-> y, i |-> i, j |-> j, n |-> n, vals |-> vals]
L(x) == Len(st[x])
Ops(x, y) ==
   {E0(op, x, y, 0, 0, 0, <<v>>) : op \in {"push", "pushm"}, v \in Vals}
   \cup {E0("emplace", x, y, 0, 0, 0, <<a, b>>) : a \in Vals, b \in Vals}
   \cup {E0(op, x, y, 0, 0, 0, <<>>) : op \in {"pop", "popval"}, d \in (IF L(x) > 0 THEN {1} ELSE {})}
   \cup {E0(op, x, y, 0, 0, 0, <<>>) : op \in {"clear", "eq", "lt", "rev", "print", "ccopy", "copy"}}
   \cup {E0(op, x, y, 0, 0, 0, <<>>) : op \in {"appendv", "swap", "stdswap", "move", "cmove"}, d \in (IF x # y THEN {1} ELSE {})}
   \cup {E0(op, x, y, 0, 0, n, <<3>>) : op \in {"resize", "resizev", "reserve", "assignn", "cn", "cn0"}, n \in 0..MaxLen}
   \cup {E0("appendn", x, y, 0, 0, n, <<3>>) : n \in 0..3}
   \cup {E0(op, x, y, 0, 0, 0, SubSeq(<<4, 5, 6, 7, 8>>, 1, n)) : op \in {"append", "assign", "cr"}, n \in 0..5}
   \cup {E0(op, x, y, 0, 0, 0, <<4, 5>>) : op \in {"appendil", "assignil", "cil"}}
   \cup {E0("eqil", x, y, 0, 0, 0, <<4, 5, 6>>)}
   \cup {E0("erase", x, y, i, 0, 0, <<>>) : i \in 0..(L(x) - 1)}
   \cup {E0("eraser", x, y, i, j, 0, <<>>) : i \in 0..L(x), j \in 0..L(x)}
   \cup {E0(op, x, y, i, 0, 0, <<v>>) : op \in {"insert", "insertm"}, i \in 0..L(x), v \in Vals}
   \cup {E0("insertn", x, y, i, 0, n, <<3>>) : i \in 0..L(x), n \in 0..3}
   \cup {E0("insertr", x, y, i, 0, 0, SubSeq(<<4, 5, 6, 7, 8>>, 1, n)) : i \in 0..L(x), n \in 0..5}
   \cup {E0("insertil", x, y, i, 0, 0, <<4, 5>>) : i \in 0..L(x)}
   \cup {E0("set", x, y, i, 0, 0, <<v>>) : i \in 0..(L(x) - 1), v \in Vals}
   \cup {E0(op, x, y, 0, 0, 0, <<>>) : op \in {"front", "back"}, d \in (IF L(x) > 0 THEN {1} ELSE {})}
Legal(e) == e.op = "eraser" => e.i <= e.j
Post(e) == [k \in 1..3 |-> IF k = e.x THEN Target(st[e.x], st[e.y], e)
                           ELSE IF k = e.y /\ e.op \in Swaps THEN st[e.x]
                           ELSE IF k = e.y /\ e.op \in Moves THEN <<>> ELSE st[k]]
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Init == st \in {<<a, b, <<>>>> : a \in Seqs, b \in Seqs}
Next == \E e \in Ops(1, 2) : Legal(e) /\ st' = Post(e)
Spec == Init /\ [][Next]_st
Narrow == \A k \in 1..3 : Len(st[k]) <= MaxLen /\ \A i \in DOMAIN st[k] : st[k][i] \in Vals
Laws == \A x \in 1..2, y \in 1..2 : \A e \in Ops(x, y) : Legal(e) =>
   LET p == Post(e) s == st[x] t == p[x] IN
   /\ e.op \in {"insert", "insertm"} => EraseRange(t, e.i, e.i + 1) = s
   /\ e.op = "insertr" => EraseRange(t, e.i, e.i + Len(e.vals)) = s
   /\ e.op \in Swaps => LET q == [p EXCEPT ![x] = p[y], ![y] = p[x]] IN q = st
   /\ e.op = "resize" => Len(t) = e.n
   /\ e.op = "eraser" => Len(t) = Len(s) - (e.j - e.i)
   /\ e.op = "push" => Take(t, Len(t) - 1) = s
=============================================================================
