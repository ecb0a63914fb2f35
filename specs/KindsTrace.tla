----------------------------- MODULE KindsTrace -----------------------------
EXTENDS Replay, Kinds
\* observed values agree with expected ones where something is required
RECURSIVE Fits(_, _)
IsSeq(x) == LET j == ToJson(x) IN SubSeq(j, 1, 1) = "["
Fits(x, y) == \/ Same(x, "any") \/ Same(x, y)
              \/ IsSeq(x) /\ IsSeq(y) /\ Len(x) = Len(y) /\ \A i \in DOMAIN x : Fits(x[i], y[i])
\* a reported normal (times 4096, rounded) is the unit vector along n
Abs(x) == IF x < 0 THEN -x ELSE x
Size(n) == Abs(n[1]) + Abs(n[2]) + Abs(n[3])
UnitOf(n, u) == \/ n = <<>>
                \/ /\ Dot(n, u) > 0
                   /\ \A d \in 1..3 : Abs(Cross(n, u)[d]) <= Size(n)
                   /\ Abs(Dot(u, u) - 16777216) <= 20000
NormsOK(es, us) == \A i \in 1..4 : LET q == IF es[i].ty = "-" THEN <<>> ELSE Norms(es[i]) IN Len(us[i]) = Len(q) /\ \A k \in DOMAIN q : UnitOf(q[k], us[i][k])
KCheck(st, e) ==
  LET r == KStep(st, e.op)  o == MapS(Obs, r.st) IN
  [ok |-> Len(e.obs) = 2 /\ Fits(r.res, e.res) /\ Fits(o, e.obs[1]) /\ NormsOK(r.st, e.obs[2]), st |-> r.st,
   exp |-> [res |-> r.res, obs |-> << o, MapS(LAMBDA x : IF x.ty = "-" THEN <<>> ELSE Norms(x), r.st) >>]]
=============================================================================
