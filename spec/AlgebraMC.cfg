SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS Orthogonal Lagrange AntiSym Jacobi Bilinear Triple Group
CHECK_DEADLOCK FALSE
