---------------------------- MODULE CollisionMC ----------------------------
(* Three bodies on a line: a run never passes a state in which two of them touch, *)
(* and touching does not depend on the order or the place of the bodies.            *)
EXTENDS Collision, TLC
CONSTANTS W, R, End
Line(x) == <<x, 0, 0>>
VARIABLES t, pos, v, r, past
Init == /\ t = 0 /\ past = FALSE
        /\ pos \in {<<Line(0), Line(a), Line(b)>> : a, b \in -W..W}
        /\ v \in {<<Line(0), Line(a), Line(b)>> : a, b \in -1..1}
        /\ r \in {<<1, a, b>> : a, b \in 0..R}
Next == /\ ~Over(t, pos, r, End)
        /\ LET n == StepTo(t, pos, v, 1, End) IN t' = n.t /\ pos' = n.pos
        /\ past' = (past \/ Touching(pos, r))
        /\ UNCHANGED <<v, r>>
Spec == Init /\ [][Next]_<<t, pos, v, r, past>> /\ WF_t(Next)
NeverPast == ~past
Symmetric == Touching(pos, r) = Touching(<<pos[3], pos[1], pos[2]>>, <<r[3], r[1], r[2]>>)
Moved == Touching(pos, r) = Touching(Drift(pos, <<<<2, 1, 1>>, <<2, 1, 1>>, <<2, 1, 1>>>>, 3), r)
Ends == <>Over(t, pos, r, End)
=============================================================================
