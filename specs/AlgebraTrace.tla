---------------------------- MODULE AlgebraTrace ----------------------------
EXTENDS Replay, Algebra
\* sorting by columns f..l (0-based) of a copy: rows permuted and keys ascending
SortByOk(st, e) == LET m == st[e.op[2]] IN
  /\ Permutes(m.v, e.res) /\ SortedBy(e.res, e.op[3] + 1, e.op[4] + 1)
ACheck(st, e) == LET r == AStep(st, e.op) IN
  [ok |-> (IF e.op[1] = "sortby" THEN SortByOk(st, e) ELSE Same(r.res, e.res)) /\ Same(AObs(r.st), e.obs), st |-> r.st, exp |-> [res |-> r.res, obs |-> AObs(r.st)]]
=============================================================================
