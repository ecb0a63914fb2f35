---------------------------- MODULE EnlargeTrace ----------------------------
EXTENDS Replay, Enlarge
LCheck(st, e) ==
  LET x == LStep(st, e.op).st
      ints == \A d \in 1..3 : \A i \in 1..Len(e.obs[d]) : e.obs[d][i] \in Int
      ok == Same(e.res, "ok") /\ ints /\ LOK(st, e.op, e.obs)
  IN [ok |-> ok, st |-> IF ok THEN [set |-> TRUE, pos |-> e.obs] ELSE x, exp |-> x.pos]
=============================================================================
