--------------------------- MODULE ScatteringTrace ---------------------------
EXTENDS Scattering, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
vars == <<tr, l>>
T == Traces[tr]
E == T.ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1
Crit == E.e = "crit" /\ IsRoot(E.v, Critical2(E.m1, E.m2, 24 * E.m1 * E.E1, 24 * E.m2 * E.E2))
CritC == E.e = "critc" /\ (IsRoot(E.v, Critical2(Mass(T.c1), Mass(T.c2), Inner24M(T.c1), Inner24M(T.c2)))) = TRUE
B1 == E.e = "b1" /\ IsRoot(E.b, BMax2(E.m, E.w, <<E.rp, 4>>))
B2 == E.e = "b2" /\ IsRoot(E.b, BMax2(E.m1 + E.m2, E.w, Tidal(E.fn, E.fd, E.m1, E.m2, E.r1, E.r2)))
BC == E.e = "bc" /\ (IsRoot(E.b, BMax2(Mass(T.c1) + Mass(T.c2), E.w, Tidal(E.fn, E.fd, Mass(T.c1), Mass(T.c2), Size(T.c1), Size(T.c2))))) = TRUE
HardR == E.e = "hard" /\ Near(E.r, Hard(E.m1, E.m2, E.m, E.w), 1)
Inc == E.e = "inc" /\ (Incident(E.m, E.w, E.bm, E.r0, E.x, E.v, E.h, E.b)) = TRUE
(* between clusters: up to where the tide is one fiftieth, from where it is f *)
IncC == /\ E.e = "incc"
        /\ LET m1 == Mass(T.c1) m2 == Mass(T.c2) r1 == Size(T.c1) r2 == Size(T.c2)
               X == BMax2(m1 + m2, E.w, Tidal(1, 50, m1, m2, r1, r2))
               r0 == Tidal(E.fn, E.fd, m1, m2, r1, r2)
           IN (E.b * E.b <= X + 2 * E.b + 2 /\ Incident(m1 + m2, E.w, 44000, 25 * r0[1], E.x, E.v, E.h, E.b)) = TRUE
(* over the disc: squared impact parameters in tenths of the largest, directions in twelfths of a turn *)
Area == E.e \in {"area", "areac"} /\ (Shaped("uniform", <<0, 10>>, E.be, E.bc)) = TRUE /\ (Shaped("uniform", <<0, 12>>, E.ae, E.ac)) = TRUE
        /\ (Independent(Chances("uniform", <<0, 10>>, E.be), Chances("uniform", <<0, 12>>, E.ae), E.jc)) = TRUE
TNext == l <= Len(T.ev) /\ (Crit \/ CritC \/ B1 \/ B2 \/ BC \/ HardR \/ Inc \/ IncC \/ Area) /\ l' = l + 1 /\ tr' = tr
TDone == l > Len(T.ev) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext \/ TDone]_vars
=============================================================================
