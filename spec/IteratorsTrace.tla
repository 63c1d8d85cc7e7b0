---------------------------- MODULE IteratorsTrace ----------------------------
(* One macro step per event; modes "seq" (refinement and fixed steps), "radau" (Gauss-Radau step and predictor), "ias". *)
EXTENDS Iterators, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, t, bOk
T == Traces[tr]
E == T.ev[l]
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
\* ---- refinement: units 1/64
Uniform(s, m) == s.clean /\ Len(s.h) = m /\ E.h % m = 0 /\ \A i \in 1..m : s.h[i] = E.h \div m
SeqStep ==
  LET e == [i \in 1..Refinements |-> E.lev[i][1]]
      k == Stop(T.order, e, 1)
  IN IF E.const THEN /\ Len(E.subs) = 1 /\ Uniform(E.subs[1], 1)
                     /\ E.n = 1 /\ E.sum = E.h /\ E.next = 8 * E.h /\ E.rest
     ELSE /\ Len(E.subs) = k + 1
          /\ \A i \in 1..k + 1 : Uniform(E.subs[i], Ns[i])
          /\ E.n = Ns[k + 1]                  \* the finest result is kept
          /\ E.sum = E.h /\ E.rest
          /\ E.next = E.h * E.lev[k][2]       \* the controller's ratio for the scaled error, in eighths
          /\ T.order = 2 => Abs(E.err * 4 * (Ns[k + 1] ^ 2 - Ns[k] ^ 2) - 1000 * e[k] * Ns[k] ^ 2) <= 4 * (Ns[k + 1] ^ 2 - Ns[k] ^ 2)
          /\ T.tol = <<1, 2>>
\* ---- Gauss-Radau: units 1/2; x = 2t is an integer, y_m' = x^m
RECURSIVE Choose(_, _)
Choose(m, k) == IF k = 0 THEN 1 ELSE (Choose(m, k - 1) * (m - k + 1)) \div k
Pow(x, m) == IF m = 0 THEN 1 ELSE x ^ m
RadauStep ==
  LET x0 == E.t
      x1 == E.t + E.h
  IN /\ E.t1 = 1000000 * x1 /\ E.evals = 8
     /\ E.next = E.h
     /\ \A i \in 1..Len(T.deg) :
          LET m == T.deg[i]
              D == Pow(x1, m + 1) - Pow(x0, m + 1)
          IN E.v[i][1] = D /\ Abs(E.v[i][2]) <= 500
     \* from the second step on the predictor carries polynomials of degree up to 7 over exactly
     /\ (l > 1 /\ ~T.const) =>
          \A i \in 1..Len(T.deg), k \in 1..7 :
            LET m == T.deg[i]
                w == IF k > m THEN 0 ELSE Choose(m, k) * Pow(x1, m - k) * Pow((E.h * E.q) \div 2, k)
            IN m <= 7 => E.b[k][i][1] = w /\ Abs(E.b[k][i][2]) <= 50000
\* ---- a right hand side that depends on the state: y_m = x^m throughout
ChainedStep ==
  LET x1 == E.t + E.h
  IN /\ E.t1 = 1000000 * x1
     /\ \A m \in 1..Len(E.y) : Abs(E.y[m] - 64 * Pow(x1, m)) <= 2
\* ---- IAS control: units 1/4096
RECURSIVE Tries(_, _, _)
\* <<number of the accepted attempt, its step, list of steps tried with their sweeps>>
Tries(a, h, done) ==
  LET r == E.r[IF a <= Len(E.r) THEN a ELSE Len(E.r)]
      s == Sweeps(E.pc[IF a <= Len(E.pc) THEN a ELSE Len(E.pc)], 1)
      d == Append(done, <<h, s>>)
  IN IF Accepted(r) THEN <<r, h, d>> ELSE Tries(a + 1, (h * r) \div 16, d)
RECURSIVE Steps(_)
Steps(d) == IF d = <<>> THEN <<>> ELSE [i \in 1..d[1][2] |-> d[1][1]] \o Steps(Tail(d))
\* the last interior node of a step from u of length g
Node(u, g) == u + (g * 97752) \div 100000
\* (r/1024)^m in 1/1024
RECURSIVE Scaled(_, _)
Scaled(r, m) == IF m = 0 THEN 1024 ELSE (Scaled(r, m - 1) * r) \div 1024
\* the error is that of the bodies that move more than a millionth of their distance: three positions each, then three velocities each
Counted == LET n == Len(T.slow) IN {j \in 1..Len(T.deg) : ~T.slow[(((j - 1) % (3 * n)) \div 3) + 1]}
IasStep ==
  LET q == Tries(1, E.h, <<>>)
      h == q[2]
      st == Steps(q[3])
      t1 == E.t + h
  IN /\ E.t1 = t1
     /\ Abs(E.next * 16 - h * Limit(q[1])) <= 8
     /\ E.sweeps = 8 * Len(st)
     /\ Len(E.ends) = Len(st)
     \* every sweep restarts from the same state and reaches the last node of the step, 0.97752 of it
     /\ \A i \in 1..Len(st) : E.ends[i][1] = E.t /\ Abs(E.ends[i][2] - Node(E.t, st[i])) <= 1
     /\ \A i \in 1..Len(T.deg) :
          /\ T.deg[i] = 0 => E.v[i] = h * 256
          /\ T.deg[i] = 1 => Abs(16 * E.v[i] - (t1 * t1 - E.t * E.t)) <= 24
     /\ Len(E.err) = Len(q[3])
     /\ \A i \in 1..Len(E.err) :
          LET g == q[3][i][1]
              G == Abs(g) \div 2                                   \* thousandth-like units: 1024 is one unit of x = 2t
              X == Max(1024, Abs(Node(E.t, g)) \div 2)
              rho == (G * 1024) \div X
              D == {T.deg[j] : j \in Counted}
              top == CHOOSE m \in D : \A d \in D : d <= m
          IN IF top < 7 THEN Abs(E.err[i]) <= 100
             ELSE rho <= 2048 => LET w == 97 * Scaled(rho, 7) IN Abs(E.err[i] - w) <= 1500 + w \div 20
\* ---- a chain of steps, each as long as the last one proposed; t = 1 if the last one, not the first, was accepted at
\* once: then what it predicts for this one carries polynomials over exactly, so that even the first sweep is right at
\* every node. (The guess after a rejected attempt is only a guess, and the one after it is corrected by how wrong it was.)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(Tail(s))
CarryStep ==
  /\ E.evals = 8 * Total(E.ns)
  /\ \A a \in 1..Len(E.r) : Accepted(E.r[a]) <=> a = Len(E.r)
  /\ t = 1 => E.off[1] <= 1
vars == <<tr, l, t, bOk>>
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ t = 0 /\ bOk = TRUE
Step == /\ l <= Len(T.ev)
        /\ CASE T.mode = "seq" -> SeqStep [] T.mode = "radau" -> RadauStep [] T.mode = "chained" -> ChainedStep [] T.mode = "ias" -> IasStep [] T.mode = "carry" -> CarryStep
        /\ (T.mode \notin {"seq", "carry"} /\ l > 1) => E.t = t            \* the next step starts where this one ended
        /\ t' = (IF T.mode = "ias" THEN E.t1 ELSE IF T.mode \in {"radau", "chained"} THEN E.t + E.h ELSE IF T.mode = "carry" /\ l > 1 /\ Len(E.r) = 1 THEN 1 ELSE 0)
        /\ l' = l + 1 /\ UNCHANGED <<tr, bOk>>
Done == l > Len(T.ev) /\ UNCHANGED vars
TSpec == TInit /\ [][Step \/ Done]_vars
==============================================================================
