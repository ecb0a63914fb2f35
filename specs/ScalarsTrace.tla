----------------------------- MODULE ScalarsTrace -----------------------------
EXTENDS Replay, Scalars
Loose(a, b) == \A i \in 1..Len(a) : IF Same(a[i], "any") THEN TRUE ELSE Same(a[i], b[i])
UCheck(st, e) == LET r == UStep(st, e.op) IN
  [ok |-> (IF e.op[1] = "statsI" THEN Loose(r.res, e.res) ELSE Same(r.res, e.res)) /\ Same(UObs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> UObs(r.st)]]
=============================================================================
