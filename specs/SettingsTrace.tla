--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS Replay, Settings
OCheck(st, e) == LET r == OStep(st, e.op) IN [ok |-> Same(e.obs, OObs(r.st)) /\ Same(e.res, r.res), st |-> r.st, exp |-> [res |-> r.res, obs |-> OObs(r.st)]]
=============================================================================
