---------------------------- MODULE AlgebraMC ----------------------------
(* The laws users of the algebra rely on, over small domains. *)
EXTENDS Algebra, TLC
CONSTANT R
Dom == -R..R
Vec == Dom \X Dom \X Dom
VARIABLES u, v, w
Init == u \in {<<1, 0, 0>>, <<1, -1, R>>} /\ v \in Vec /\ w \in Vec
Next == UNCHANGED <<u, v, w>>
Spec == Init /\ [][Next]_<<u, v, w>>
Orthogonal == Dot(Cross(v, w), v) = 0 /\ Dot(Cross(v, w), w) = 0
Lagrange == Dot(Cross(v, w), Cross(v, w)) + Dot(v, w) * Dot(v, w) = Dot(v, v) * Dot(w, w)
AntiSym == Cross(v, w) = Neg(Cross(w, v)) /\ Dot(v, w) = Dot(w, v)
Jacobi == Add(Add(Cross(u, Cross(v, w)), Cross(v, Cross(w, u))), Cross(w, Cross(u, v))) = <<0, 0, 0>>
Bilinear == Dot(Add(u, v), w) = Dot(u, w) + Dot(v, w) /\ Cross(Add(u, v), w) = Add(Cross(u, w), Cross(v, w))
Triple == Dot(u, Cross(v, w)) = Dot(v, Cross(w, u))
Group == Add(v, Neg(v)) = <<0, 0, 0>> /\ Sub(v, w) = Add(v, Neg(w)) /\ Zip(v, w, Max2) = Neg(Zip(Neg(v), Neg(w), Min2))
=============================================================================
