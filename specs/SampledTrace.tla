---------------------------- MODULE SampledTrace ----------------------------
EXTENDS Replay, Sampled
\* where nothing is said either answer will do, as long as it is the same both ways
Fits(q, r) == \A i, j \in 1..4 : Same(q[i][j], r[i][j]) \/ (r[i][j] = "u" /\ q[i][j] \in {"t", "f"} /\ Same(q[i][j], q[j][i]))
VCheck(st, e) == LET r == VStep(st, e.op)  o == VObs(r.st) IN
  [ok |-> Same(e.obs.s, o.s) /\ Fits(e.obs.q, o.q) /\ Same(e.res, r.res), st |-> r.st, exp |-> [res |-> r.res, obs |-> o]]
=============================================================================
