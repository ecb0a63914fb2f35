---------------------------- MODULE PolysTrace ----------------------------
EXTENDS Replay, Polys
\* the listing of monomials << powers, Unit * value >> adds up to the polynomial; none is zero after their removal
Listed(p, l, m) == Collect(l) = Of(p) /\ m = MaxPow({ l[i][1] : i \in 1..Len(l) }) /\ \A i \in 1..Len(l) : Len(l[i][1]) = p.nv
Fits(q, r) == \A i, j \in 1..3 : Same(q[i][j], r[i][j]) \/ (r[i][j] = "u" /\ q[i][j] \in {"t", "f"} /\ Same(q[i][j], q[j][i]))
Good(st, e) ==
  LET n == e.op[1] IN
  CASE n = "tomat" -> LET p == st.p[e.op[2] + 1] IN Len(e.res) >= 1 /\ Collect([i \in 1..Len(e.res) |-> << << i - 1 >>, e.res[i] >>]) = Of(p)
    [] n = "nodes" -> NodesOK(e.op[2], e.op[3], e.res)
    [] n = "weights" -> WeightsOK(e.op[2], e.op[3], e.res)
    [] n = "basis" -> e.res[1] \in Comps(e.op[3], e.op[2] + 1) /\ e.res[2] = Basis(e.res[1], e.op[5])
    \* the derivative by a coordinate, times the factorial of its index
    [] n = "dbasis" -> e.res[1] \in Comps(e.op[3], e.op[2] + 1) /\ e.res[2] = e.op[3] * DBasis(e.res[1], e.op[5], e.op[6] + 1)
    [] OTHER -> Same(e.res, IStep(st, e.op).res)
ICheck(st, e) == LET r == IStep(st, e.op)  o == IObs(r.st) IN
  [ok |-> Same(e.obs.p, o.p) /\ Fits(e.obs.q, o.q) /\ (\A i \in 1..3 : Listed(r.st.p[i], e.obs.l[i], e.obs.m[i]))
          /\ (e.op[1] \in {"der", "rz"} => \A i \in 1..Len(e.obs.l[e.op[2] + 1]) : e.obs.l[e.op[2] + 1][i][2] # 0) /\ Good(st, e), st |-> r.st,
   exp |-> [res |-> IF e.op[1] = "basis" THEN Basis(e.res[1], e.op[5]) ELSE r.res, obs |-> o]]
=============================================================================
