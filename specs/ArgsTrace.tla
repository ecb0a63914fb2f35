----------------------------- MODULE ArgsTrace -----------------------------
EXTENDS Replay, Args
\* when several things are wrong, any of them may be the one reported
UCheck(st, e) ==
  LET r == UStep(st, e.op)
      good == IF e.op[1] = "parse" /\ r.res[1] = "refused" THEN \E c \in r.res[2] : Same(e.res, << "refused", c >>) ELSE Same(e.res, r.res)
  IN [ok |-> Same(e.obs, UObs(r.st)) /\ good, st |-> r.st, exp |-> [res |-> r.res, obs |-> UObs(r.st)]]
=============================================================================
