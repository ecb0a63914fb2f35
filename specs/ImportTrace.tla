---------------------------- MODULE ImportTrace ----------------------------
EXTENDS Replay, Import
JCheck(st, e) == LET d == JStep(st, e.op).st
                     ok == IF e.op[1] = "raw" THEN Same(e.obs, "refused") ELSE Agrees(d, e.obs)
                 IN [ok |-> ok, st |-> d, exp |-> [res |-> "ok", obs |-> IF ok \/ e.op[1] = "raw" THEN "refused" ELSE JObs(d)]]
=============================================================================
