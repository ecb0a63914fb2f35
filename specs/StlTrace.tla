------------------------------ MODULE StlTrace ------------------------------
EXTENDS Replay, Stl
ZCheck(st, e) == LET d == ZStep(st, e.op).st IN [ok |-> Same(e.obs, ZObs(d)), st |-> d, exp |-> [res |-> "ok", obs |-> ZObs(d)]]
=============================================================================
