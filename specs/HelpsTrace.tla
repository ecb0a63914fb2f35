----------------------------- MODULE HelpsTrace -----------------------------
EXTENDS Replay, Helps
HCheck(st, e) == LET r == HStep(st, e.op) IN [ok |-> Same(r.res, e.res), st |-> st, exp |-> [res |-> r.res]]
=============================================================================
