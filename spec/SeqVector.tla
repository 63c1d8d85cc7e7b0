----------------------------- MODULE SeqVector -----------------------------
(* A vector is a finite sequence. What every operation does to the vectors    *)
(* (st: <<v1, v2, v3>>) and what it returns. Positions count from 0. The        *)
(* source of a move is valid but its contents are up to the implementation.    *)
EXTENDS Integers, Sequences
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rep(n, v)  == [k \in 1..n |-> v]
Rev(s)     == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
InsertAt(s, i, t) == Take(s, i) \o t \o Drop(s, i)
EraseRange(s, i, j) == Take(s, i) \o Drop(s, j)
Resize(s, n, v) == IF n <= Len(s) THEN Take(s, n) ELSE s \o Rep(n - Len(s), v)
RECURSIVE Less(_, _)
Less(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
              ELSE IF Head(s) # Head(t) THEN Head(s) < Head(t) ELSE Less(Tail(s), Tail(t))

(* the new contents of vector e.x *)
Target(s, t, e) ==
  CASE e.op \in {"push", "pushm"}          -> Append(s, e.vals[1])
    [] e.op = "emplace"                     -> Append(s, e.vals[1] * 10 + e.vals[2])
    [] e.op \in {"pop", "popval"}           -> Take(s, Len(s) - 1)
    [] e.op = "clear"                       -> <<>>
    [] e.op = "resize"                      -> Resize(s, e.n, 0)
    [] e.op = "resizev"                     -> Resize(s, e.n, e.vals[1])
    [] e.op \in {"append", "appendil"}      -> s \o e.vals
    [] e.op = "appendn"                     -> s \o Rep(e.n, e.vals[1])
    [] e.op = "appendv"                     -> s \o t
    [] e.op \in {"assignn", "cn"}           -> Rep(e.n, e.vals[1])
    [] e.op = "cn0"                         -> Rep(e.n, 0)
    [] e.op \in {"assign", "assignil", "eqil", "cr", "cil"} -> e.vals
    [] e.op = "erase"                       -> EraseRange(s, e.i, e.i + 1)
    [] e.op = "eraser"                      -> EraseRange(s, e.i, e.j)
    [] e.op \in {"insert", "insertm"}       -> InsertAt(s, e.i, <<e.vals[1]>>)
    [] e.op = "insertn"                     -> InsertAt(s, e.i, Rep(e.n, e.vals[1]))
    [] e.op \in {"insertr", "insertil"}     -> InsertAt(s, e.i, e.vals)
    [] e.op \in {"swap", "stdswap", "copy", "move", "ccopy", "cmove"} -> t
    [] e.op = "set"                         -> [s EXCEPT ![e.i + 1] = e.vals[1]]
    [] OTHER                                -> s
Moves == {"move", "cmove"}
Swaps == {"swap", "stdswap"}
Ret(s, t, e) ==
  CASE e.op = "popval" \/ e.op = "back" -> s[Len(s)]
    [] e.op = "front"                    -> s[1]
    [] e.op = "reserve"                  -> 1
    [] e.op \in {"erase", "eraser", "insert", "insertm", "insertn", "insertr"} -> e.i
    [] e.op = "eq"                       -> IF s = t THEN 1 ELSE 2
    [] e.op = "lt"                       -> IF Less(s, t) THEN 1 ELSE 0
    [] OTHER                             -> -1
Listing(s, e) == CASE e.op = "print" -> s [] e.op = "rev" -> Rev(s) [] OTHER -> <<>>
(* other vectors *)
Others(st, e, post) == \A k \in 1..3 : k # e.x =>
   IF e.op \in Swaps /\ k = e.y THEN post[k] = st[e.x]
   ELSE IF e.op \in Moves /\ k = e.y THEN TRUE
   ELSE post[k] = st[k]
Step(st, e, post) == /\ post[e.x] = Target(st[e.x], st[e.y], e)
                     /\ Others(st, e, post)
                     /\ e.ret = Ret(st[e.x], st[e.y], e)
                     /\ e.seq = Listing(st[e.x], e)
=============================================================================
