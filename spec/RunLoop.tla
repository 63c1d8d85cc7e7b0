------------------------------ MODULE RunLoop ------------------------------
(* The life of one Simulator::run: start callbacks, then (stop check, step     *)
(* clipping, per-step callbacks, pre-, one iterator call, post-)*, then the    *)
(* per-step callbacks once more and the stop callbacks.                        *)
(* Times and steps are integers; the physical time a step of size h covers is  *)
(* h \div scale (scale = regularisation factor of the system).                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* [start, end, endset, h0, scale, rn, rd, nstart, nop, nstop, ncond]
  pc,     \* where the run is
  i,      \* next callback of the current list
  t, h,   \* current time, current step size
  hit,    \* some stop condition was true in the current check
  iters,  \* number of iterator calls
  rounds  \* number of completed rounds of per-step callbacks
rvars == <<cfg, pc, i, t, h, hit, iters, rounds>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* |(t-end)/end| > rn/rd ; without an end time the run goes on; with end = 0 only t = 0 counts as arrived *)
FarT(c, x) == IF ~c.endset THEN TRUE ELSE IF c.end = 0 THEN x # 0 ELSE Abs(x - c.end) * c.rd > c.rn * Abs(c.end)
Far(x) == FarT(cfg, x)
Rest   == (cfg.end - t) * cfg.scale
Clip(x) == IF Abs(x) <= Abs(Rest) THEN x ELSE Rest

InitWith(c) == /\ cfg = c
               /\ t = c.start /\ h = c.h0 /\ i = 1 /\ hit = FALSE /\ iters = 0 /\ rounds = 0
               /\ pc = IF c.scale = 0 THEN "done" ELSE "starting"   \* a vanishing scale refuses to run

Keep == UNCHANGED <<cfg, t, h, iters>>

StartOp == /\ pc = "starting" /\ i <= cfg.nstart
           /\ i' = i + 1 /\ UNCHANGED <<pc, hit, rounds>> /\ Keep
Started == /\ pc = "starting" /\ i > cfg.nstart
           /\ pc' = "checking" /\ i' = 1 /\ hit' = FALSE /\ UNCHANGED rounds /\ Keep

(* end time reached: conditions need not be asked *)
Arrived == /\ pc = "checking" /\ ~Far(t)
           /\ pc' = "finalop" /\ i' = 1 /\ hit' = FALSE /\ UNCHANGED rounds /\ Keep
Cond(r) == /\ pc = "checking" /\ i <= cfg.ncond
           /\ i' = i + 1 /\ hit' = (hit \/ r) /\ UNCHANGED <<pc, rounds>> /\ Keep
(* the remaining conditions may or may not be asked once one is true *)
Checked == /\ pc = "checking"
           /\ \/ hit /\ pc' = "finalop" /\ h' = h
              \/ ~hit /\ i > cfg.ncond /\ Far(t) /\ pc' = "op" /\ h' = Clip(h)
           /\ i' = 1 /\ hit' = FALSE /\ UNCHANGED <<cfg, t, iters, rounds>>

Op == /\ pc \in {"op", "finalop"} /\ i <= cfg.nop
      /\ i' = i + 1 /\ UNCHANGED <<pc, hit, rounds>> /\ Keep
OpsDone == /\ pc \in {"op", "finalop"} /\ i > cfg.nop
           /\ pc' = IF pc = "op" THEN "pre" ELSE "stopping"
           /\ i' = 1 /\ rounds' = rounds + 1 /\ UNCHANGED hit /\ Keep
Pre == pc = "pre" /\ pc' = "iterate" /\ UNCHANGED <<i, hit, rounds>> /\ Keep
(* the iterator covers dt of the offered step and proposes the next one *)
Iterate(dt, nxt) ==
      /\ pc = "iterate" /\ t' = t + dt /\ h' = nxt /\ iters' = iters + 1
      /\ pc' = "post" /\ UNCHANGED <<cfg, i, hit, rounds>>
Post == pc = "post" /\ pc' = "checking" /\ i' = 1 /\ UNCHANGED <<hit, rounds>> /\ Keep
StopOp == /\ pc = "stopping" /\ i <= cfg.nstop
          /\ i' = i + 1 /\ UNCHANGED <<pc, hit, rounds>> /\ Keep
Stopped == /\ pc = "stopping" /\ i > cfg.nstop
           /\ pc' = "done" /\ UNCHANGED <<i, hit, rounds>> /\ Keep

----------------------------------------------------------------------------
TypeOK == pc \in {"starting", "checking", "op", "finalop", "pre", "iterate", "post", "stopping", "done"}
(* one round of per-step callbacks before every step, and one after the last *)
RoundsPerStep ==
   /\ (pc \in {"checking", "op", "finalop"} => rounds = iters)
   /\ (pc \in {"pre", "iterate"} => rounds = iters + 1)
   /\ (pc = "done" /\ cfg.scale # 0 => rounds = iters + 1)
Between(a, x, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
(* the run never leaves [start, end] and no offered step would overshoot *)
NeverPastEnd == cfg.endset => Between(cfg.start, t, cfg.end)
StepFits     == pc \in {"op", "pre", "iterate"} => Abs(h) <= Abs(Rest)
=============================================================================
