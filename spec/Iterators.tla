------------------------------ MODULE Iterators ------------------------------
(* Step control of the refinement iterator (a step is repeated with 1, 2, 4, 6, ... substeps until two successive
   results agree) and of the predictor-corrector iterator (sweeps until they stop improving, then the step is judged).
   Errors are integers in quarters: 4 is "exactly the tolerance". *)
EXTENDS Integers, Sequences
Ns == <<1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20>>
Refinements == 10
\* the difference e of refinements i-1 and i (1-based: i = 1 compares 1 and 2 substeps), scaled by the order p of the method
Agrees(p, i, e) == e * Ns[i] ^ p <= 4 * (Ns[i + 1] ^ p - Ns[i] ^ p)
\* number of refinements performed
RECURSIVE Stop(_, _, _)
Stop(p, e, i) == IF i = Refinements \/ Agrees(p, i, e[i]) THEN i ELSE Stop(p, e, i + 1)

\* sweeps of one attempt: until the change is below the tolerance or no longer shrinks
RECURSIVE Sweeps(_, _)
Sweeps(pc, s) == LET v(i) == pc[IF i <= Len(pc) THEN i ELSE Len(pc)]
                 IN IF v(s) < 4 \/ (s > 1 /\ v(s) >= v(s - 1)) THEN s ELSE Sweeps(pc, s + 1)
\* step ratios in sixteenths
Accepted(r) == r > 4
Limit(r) == IF r < 4 THEN 4 ELSE IF r > 64 THEN 64 ELSE r
==============================================================================
