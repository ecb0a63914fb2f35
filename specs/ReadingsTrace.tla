--------------------------- MODULE ReadingsTrace ---------------------------
EXTENDS Replay, Readings
RCheck(st, e) ==
  IF e.op[1] = "real" THEN [ok |-> Same(e.res, RealStored(e.op[2], e.op[3])), st |-> << "unknown", <<>> >>, exp |-> [res |-> RealStored(e.op[2], e.op[3]), obs |-> e.obs]]
  ELSE LET r == RStep(st, e.op) IN [ok |-> Same(e.obs, RObs(r.st)) /\ Same(e.res, r.res), st |-> r.st, exp |-> [res |-> r.res, obs |-> RObs(r.st)]]
=============================================================================
