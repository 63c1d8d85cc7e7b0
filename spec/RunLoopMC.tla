------------------------------ MODULE RunLoopMC ------------------------------
EXTENDS RunLoop, TLC
CONSTANT MaxT
Cfgs == {c \in [start : -1..1, end : -MaxT..MaxT, endset : {TRUE}, h0 : {-3, -2, -1, 1, 2, 3}, scale : {0, 1, 2}, rn : {0, 3}, rd : {11},
           nstart : {0, 2}, nop : {1, 2}, nstop : {0, 1}, ncond : {0, 2}] :
           /\ (c.nstart = 0) = (c.nstop = 0)
           /\ Sign(c.h0) = Sign(c.end - c.start) \/ c.start = c.end
           /\ c.h0 % (IF c.scale = 0 THEN 1 ELSE c.scale) = 0}
Init == \E c \in Cfgs : InitWith(c)
DoIterate == pc = "iterate" /\
   \E dt \in {x \in -3..3 : Sign(x) = Sign(h) /\ Abs(x) * cfg.scale <= Abs(h)} : \E n \in 1..3 :
      Iterate(dt, Sign(h) * n * cfg.scale)
DoCond == \E r \in BOOLEAN : Cond(r)
Next == StartOp \/ Started \/ Arrived \/ DoCond \/ Checked \/ Op \/ OpsDone \/ Pre \/ DoIterate \/ Post \/ StopOp \/ Stopped
        \/ (pc = "done" /\ UNCHANGED rvars)
View == <<cfg, pc, i, t, h, hit, rounds - iters>>
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)
Terminates == <>(pc = "done")
RanToEnd == pc = "done" /\ cfg.scale # 0 /\ cfg.ncond = 0 => ~Far(t)
=============================================================================
