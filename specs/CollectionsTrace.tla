-------------------------- MODULE CollectionsTrace --------------------------
EXTENDS Replay, Collections
CCheck(st, e) ==
  LET r == CStep(st, e.op)
      o == IF e.op[1] = "kind" THEN <<>> ELSE CObs(r.st)
  IN [ok |-> Same(r.res, e.res) /\ Same(o, e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> o]]
=============================================================================
