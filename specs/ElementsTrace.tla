---------------------------- MODULE ElementsTrace ----------------------------
EXTENDS Replay, Elements
ECheck(st, e) ==
  IF e.op[1] = "kind" THEN [ok |-> TRUE, st |-> EStep(st, e.op).st, exp |-> "ok"] ELSE
  LET t == EStep(st, e.op).st  x == Obs(t)  o == e.obs
      obsok == /\ Same(x.list, o.list) /\ Same(x.mat, o.mat) /\ Same(x.lay, o.lay) /\ Same(x.both, o.both)
               /\ Same(x.coord, o.coord) /\ Same(x.sep, o.sep)
               /\ Same(IF t.es = <<>> THEN "infinite" ELSE x.bound, o.bound)
  IN [ok |-> EResOK(st, e.op, e.res, Same) /\ obsok, st |-> t,
      exp |-> [res |-> EStep(st, e.op).res, obs |-> x]]
=============================================================================
