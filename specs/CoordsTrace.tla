----------------------------- MODULE CoordsTrace -----------------------------
EXTENDS Replay, Coords
KCheck(st, e) ==
  LET r == KStep(st, e.op)  t == r.st  o == e.obs
      existing == e.op[1] \in {"addPos", "addPosDef"} /\ Same(r.res, "existing")
      resok == IF existing
               THEN \E i \in AtPos(st, e.op[2], Q(e.op[3])) : Same(Item(st.cs[i]), e.res)
               ELSE Same(r.res, e.res)
      listok == Same([i \in 1..Len(t.cs) |-> Item(t.cs[i])], o.list)
      posok == \A u \in 1..Len(t.uni) :
                  /\ LookOK(t, "R", t.uni[u], o.posR[u])
                  /\ LookOK(t, "I", t.uni[u], o.posI[u])
                  /\ Same(SetToSortSeq(AllAt(t, t.uni[u]), <), o.allI[u])
      lookok == Same([k \in 1..11 |-> ById(t, k - 1)], o.look)
  IN [ok |-> IF resok /\ listok THEN posok /\ lookok ELSE FALSE, st |-> t,
      exp |-> [res |-> r.res, list |-> [i \in 1..Len(t.cs) |-> Item(t.cs[i])], uni |-> t.uni]]
=============================================================================
