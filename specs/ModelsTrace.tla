---------------------------- MODULE ModelsTrace -----------------------------
EXTENDS Replay, Models
YCheck(st, e) == LET r == YStep(st, e.op) IN
  [ok |-> Same(r.res, e.res) /\ Same(YObs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> YObs(r.st)]]
=============================================================================
