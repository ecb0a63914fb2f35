---------------------------- MODULE BoundsTrace ----------------------------
EXTENDS Replay, Bounds
NCheck(st, e) == LET r == NStep(st, e.op) IN
  [ok |-> Same(r.res, e.res) /\ Same(NObs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> NObs(r.st)]]
=============================================================================
