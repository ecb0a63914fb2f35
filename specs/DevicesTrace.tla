---------------------------- MODULE DevicesTrace ----------------------------
EXTENDS Replay, Devices
QCheck(st, e) == LET r == QStep(st, e.op) IN
  [ok |-> (Same(r.res, "any") \/ Same(r.res, e.res)) /\ Same(QObs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> QObs(r.st)]]
=============================================================================
