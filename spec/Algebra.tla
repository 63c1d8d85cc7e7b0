------------------------------ MODULE Algebra ------------------------------
(* Exact algebra of 3-vectors and of arrays, over integers. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x < y THEN y ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Exact(x, y) == CHOOSE q \in {-(Abs(x) \div Abs(y)), Abs(x) \div Abs(y)} : q * y = x   \* only asked where y divides x
Zip(a, b, Op(_, _)) == [k \in 1..Len(a) |-> Op(a[k], b[k])]
Map(a, Op(_)) == [k \in 1..Len(a) |-> Op(a[k])]
Add(a, b) == Zip(a, b, LAMBDA x, y : x + y)
Sub(a, b) == Zip(a, b, LAMBDA x, y : x - y)
Mul(a, b) == Zip(a, b, LAMBDA x, y : x * y)
Div(a, b) == Zip(a, b, Exact)
Scale(a, s) == Map(a, LAMBDA x : x * s)
Shift(a, s) == Map(a, LAMBDA x : x + s)
Neg(a) == Scale(a, -1)
Same(a, s) == Map(a, LAMBDA x : s)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* N is 1000 times the square root of n, to the nearest unit *)
IsRoot(N, n) == N >= 0 /\ Abs(N * N - n * 1000000) <= N + 1
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* ---- vectors: the new value of a register, and what is returned ---- *)
InPlace == {"iadd", "isub", "imul", "idiv", "iadds", "isubs", "imuls", "idivs", "fill"}
Silent  == {"dot", "norm2", "mnorm2", "maxc", "csv", "norm", "mnorm", "renorm", "mrenorm", "dist", "maxabs"}
Changed(e) == IF e.op \in Silent THEN 0 ELSE IF e.op \in InPlace THEN e.a ELSE e.d
Value(e, a, b, c) ==
  CASE e.op \in {"add", "iadd", "addf"} -> Add(a, b) [] e.op \in {"sub", "isub", "subf"} -> Sub(a, b)
    [] e.op \in {"mul", "imul"} -> Mul(a, b) [] e.op \in {"div", "idiv"} -> Div(a, b)
    [] e.op \in {"adds", "sadd", "iadds"} -> Shift(a, c) [] e.op \in {"subs", "isubs"} -> Shift(a, -c) [] e.op = "ssub" -> Shift(Neg(a), c)
    [] e.op \in {"muls", "smul", "imuls"} -> Scale(a, c) [] e.op \in {"divs", "idivs"} -> Div(a, Same(a, c)) [] e.op = "sdiv" -> Div(Same(a, c), a)
    [] e.op = "neg" -> Neg(a) [] e.op \in {"abs", "vabs"} -> Map(a, Abs) [] e.op \in {"fill", "ctors"} -> Same(a, c)
    [] e.op = "cross" -> Cross(a, b) [] e.op = "vmax" -> Zip(a, b, Max2) [] e.op = "vmin" -> Zip(a, b, Min2)
    [] e.op = "conv" -> a [] e.op = "read" -> e.in
Returned(e, a, b) ==
  CASE e.op = "dot" -> e.ret = Dot(a, b) [] e.op \in {"norm2", "mnorm2"} -> e.ret = Dot(a, a)
    [] e.op = "maxc" -> e.ret = Max2(a[1], Max2(a[2], a[3])) [] e.op = "maxabs" -> e.ret = Max2(Abs(a[1]), Max2(Abs(a[2]), Abs(a[3])))
    [] e.op \in {"norm", "mnorm", "renorm", "mrenorm"} -> IsRoot(e.ret, Dot(a, a)) [] e.op = "dist" -> IsRoot(e.ret, Dot(Sub(a, b), Sub(a, b)))
    [] OTHER -> TRUE
VecStep(e) == LET a == e.pre[e.a]
                  b == e.pre[e.b]
              IN /\ \A k \in 1..3 : e.st[k] = IF k = Changed(e) THEN Value(e, a, b, e.c) ELSE e.pre[k]
                 /\ Returned(e, a, b)
                 /\ e.op = "csv" => e.row = a
(* ---- arrays: flat sequences; w = 3 for arrays of vectors ---- *)
Groups(w, s) == [g \in 1..(Len(s) \div w) |-> SubSeq(s, (g - 1) * w + 1, g * w)]
ArrValue(e, d, a, b) ==
  CASE e.op \in {"zero", "zeros"} -> Same(d, 0)
    [] e.op = "add2" -> Add(a, b) [] e.op = "add3" -> Add(Add(a, b), d) [] e.op = "mul2" -> Mul(a, b) [] e.op = "mul3" -> Mul(Mul(a, b), a)
    [] e.op = "sub" -> Sub(a, b) [] e.op = "div" -> Div(a, b) [] e.op = "scale" -> Scale(a, e.c) [] e.op = "divscale" -> Div(a, Same(a, e.c))
    [] e.op = "scaleadd" -> Scale(Add(a, b), e.c) [] e.op = "scaleadd2" -> Add(Scale(a, e.c), Scale(b, e.e)) [] e.op = "scalesub" -> Scale(Sub(a, b), e.c)
    [] e.op = "adv1" -> Add(d, a) [] e.op = "adv2" -> Add(d, Scale(a, e.c)) [] e.op = "adv3" -> Add(a, Scale(b, e.c))
    [] e.op = "ret1" -> Sub(d, a) [] e.op = "ret2" -> Sub(d, Scale(a, e.c)) [] e.op = "ret3" -> Sub(a, Scale(b, e.c))
    [] OTHER -> d
ArrRet(e, d, a, b) ==
  CASE e.op = "sum" -> <<Sum(a)>>
    [] e.op = "dot2" -> <<Sum(Mul(a, b))>> [] e.op = "dot3" -> <<Sum(Mul(Mul(a, b), d))>>
    [] e.op = "cdot" -> [g \in 1..(Len(a) \div 3) |-> Sum(Mul(Groups(3, a)[g], Groups(3, b)[g]))]
    [] e.op = "contract2" -> <<Sum(Mul(a, b))>>
    [] e.op = "contract3" -> <<Sum([k \in 1..Len(a) |-> (e.c + (k - 1) \div 3) * a[k] * b[k]])>>
    [] OTHER -> <<>>
ArrStep(e) == LET a == e.pre[e.a]
                  b == e.pre[e.b]
                  d == e.pre[e.d]
              IN /\ \A k \in 1..3 : e.st[k] = IF k = e.d THEN ArrValue(e, d, a, b) ELSE IF k = e.a /\ e.op = "zeros" THEN Same(a, 0) ELSE e.pre[k]
                 /\ e.ret = ArrRet(e, d, a, b)
=============================================================================
