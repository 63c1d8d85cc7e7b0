----------------------------- MODULE IteratorsMC -----------------------------
(* The two controls as machines over arbitrary errors; what they guarantee is stated independently. *)
EXTENDS Iterators, TLC
CONSTANTS Order, Errs, PcErrs, Rs, Depth
VARIABLES kind, i, hist, out
vars == <<kind, i, hist, out>>
Init == kind \in {"refine", "pc"} /\ i = 0 /\ hist = <<>> /\ out = "run"
\* one more refinement, with any error
Refine == /\ kind = "refine" /\ out = "run" /\ i < Depth
          /\ \E e \in Errs : /\ hist' = Append(hist, e) /\ i' = i + 1
                             /\ out' = IF Stop(Order, hist' \o [j \in 1..Refinements |-> 0], 1) = i + 1 THEN "done" ELSE "run"
          /\ UNCHANGED kind
\* one more sweep; when the sweeps are over any step ratio is proposed
Sweep == /\ kind = "pc" /\ out = "run" /\ i < Depth
         /\ \E e \in PcErrs :
              /\ hist' = Append(hist, e) /\ i' = i + 1
              /\ \/ Sweeps(hist' \o <<0>>, 1) = i + 1 /\ \E r \in Rs : out' = IF Accepted(r) THEN "accept" ELSE "reject"
                 \/ Sweeps(hist' \o <<0>>, 1) > i + 1 /\ out' = "run"
         /\ UNCHANGED kind
Next == Refine \/ Sweep
Spec == Init /\ [][Next]_vars
\* a refinement that goes on has not agreed anywhere yet; one that is done agreed at the end only
GoesOn == kind = "refine" => \A j \in 1..i : Agrees(Order, j, hist[j]) => j = i /\ out = "done"
DoneAgrees == kind = "refine" /\ out = "done" => Agrees(Order, i, hist[i]) \/ i = Refinements
\* sweeps go on exactly while they improve and are not yet good enough
SweepsImprove == kind = "pc" => \A j \in 1..i : (j < i \/ out = "run") => hist[j] >= 4 /\ (j > 1 => hist[j] < hist[j - 1])
SweepsStop == kind = "pc" /\ out /= "run" => hist[i] < 4 \/ hist[i] >= hist[i - 1]
==============================================================================
