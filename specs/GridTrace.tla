------------------------------ MODULE GridTrace ------------------------------
EXTENDS Replay, Grid
GCheck(st, e) ==
  LET r == GStep(st, e.op)  x == Obs(r.st) IN
  [ok |-> GResOK(st, e.op, e.res, Same) /\ (r.st.set => \A f \in DOMAIN x : f \in DOMAIN e.obs /\ Same(x[f], e.obs[f])), st |-> r.st,
   exp |-> [res |-> r.res, obs |-> x]]
=============================================================================
