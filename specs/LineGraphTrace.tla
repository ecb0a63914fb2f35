--------------------------- MODULE LineGraphTrace ---------------------------
EXTENDS Replay, LineGraph
GCheck(st, e) ==
  LET r == GStep(st, e.op)  o == ObsAll(r.st) IN
  [ok |-> Same(r.res, e.res) /\ Same(o, e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> o]]
=============================================================================
