----------------------------- MODULE WiresTrace -----------------------------
EXTENDS Replay, Wires
WCheck(st, e) == LET r == WStep(st, e.op) IN
  [ok |-> Same(r.res, e.res) /\ Accept(r.st.ls, e.obs), st |-> r.st,
   exp |-> [res |-> r.res, obs |-> [wellFormed |-> WellFormed(r.st.ls), wires |-> { { Lid(r.st.ls[i]) : i \in g } : g \in Exact(r.st.ls) }]]]
=============================================================================
