---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS Replay, Options
HCheck(st, e) ==
  LET r == HStep(st, e.op)
      good == IF e.op[1] = "line" /\ r.res[1] = "refused" THEN \E c \in r.res[2] : Same(e.res, << "refused", c >>) ELSE Same(e.res, r.res)
  IN [ok |-> Same(e.obs, HObs(r.st)) /\ good, st |-> r.st, exp |-> [res |-> r.res, obs |-> HObs(r.st)]]
=============================================================================
