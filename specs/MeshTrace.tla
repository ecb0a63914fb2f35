------------------------------ MODULE MeshTrace ------------------------------
EXTENDS Replay, Mesh
MCheck(st, e) ==
  LET r == MStep(st, e.op)  o == Obs(r.st) IN
  [ok |-> Same(r.res, e.res) /\ Same(o, e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> o]]
=============================================================================
