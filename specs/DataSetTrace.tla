---------------------------- MODULE DataSetTrace ----------------------------
EXTENDS Replay, DataSet
DCheck(st, e) ==
  LET r == DStep(st, e.op)  o == ObsAll(r.st) IN
  [ok |-> Same(r.res, e.res) /\ Same(o, e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> o]]
=============================================================================
