----------------------------- MODULE FacesTrace -----------------------------
EXTENDS Replay, Faces
FCheck(st, e) == LET r == FStep(st, e.op) IN
  [ok |-> Same(r.res, e.res) /\ Same(FObs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> FObs(r.st)]]
=============================================================================
