------------------------------ MODULE BoxTrace ------------------------------
EXTENDS Replay, Box
BCheck(st, e) ==
  LET r == BStep(st, e.op) IN
  [ok |-> BResOK(st, e.op, e.res, Same) /\ Same(Obs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> Obs(r.st)]]
=============================================================================
