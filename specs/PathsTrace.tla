----------------------------- MODULE PathsTrace -----------------------------
EXTENDS Replay, Paths
\* folders are listed in any order
TCheck(st, e) ==
  LET r == TStep(st, e.op)
      good == IF e.op[1] = "list" THEN ToSet(e.res) = r.res /\ Len(e.res) = Cardinality(r.res) ELSE Same(e.res, r.res)
      o == TObs(r.st)
  IN [ok |-> good /\ ToSet(e.obs[1]) = o[1] /\ Len(e.obs[1]) = Cardinality(o[1]) /\ e.obs[2] = o[2], st |-> r.st, exp |-> [res |-> r.res, obs |-> o]]
=============================================================================
