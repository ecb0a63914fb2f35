------------------------------- MODULE Points -------------------------------
(* Coordinates of every kind: real ("R"), of cells ("I"), conformal ("C":    *)
(* an axis and a fraction of the step along it) and relative ("L": a         *)
(* fraction of the step along each axis).  Four registers; positions of real *)
(* ones, fractions and grid lines are in eighths, steps are multiples of 8.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Void == [k |-> "-", id |-> 0, p |-> <<0, 0, 0>>, x |-> <<>>]
QInit == << Void, Void, Void, Void >>
V0 == <<0, 0, 0>>
\* what is known of a coordinate for which no extra data, or no data at all, is given
Blank(k) == [k |-> k, id |-> 0, p |-> V0, x |-> CASE k = "C" -> <<0, 0>> [] k = "L" -> V0 [] OTHER -> <<>>]
\* a number of cells in eighths: the whole cells (downwards, also for negative ones) and the rest
Cells(v) == [d \in 1..3 |-> v[d] \div 8]
Rest(v) == [d \in 1..3 |-> v[d] % 8]
Split(id, v) == [k |-> "L", id |-> id, p |-> Cells(v), x |-> Rest(v)]
\* grids: three increasing lists of lines
Lines(g, d) == g[d]
On(g, d, x) == \E i \in DOMAIN g[d] : g[d][i] = x
Index(g, d, x) == (CHOOSE i \in DOMAIN g[d] : g[d][i] = x) - 1
Valid(g, p) == \A d \in 1..3 : p[d] >= 0 /\ p[d] < Len(g[d])
At(g, d, i) == g[d][i + 1]
\* the position i cells and f eighths of a step along direction d; there is no step after the last line
Moved(g, d, i, f) == IF f = 0 \/ i + 1 >= Len(g[d]) THEN At(g, d, i) ELSE At(g, d, i) + (((At(g, d, i + 1) - At(g, d, i)) \div 8) * f)
Frac(e, d) == CASE e.k = "C" -> IF d = e.x[1] + 1 THEN e.x[2] ELSE 0 [] e.k = "L" -> e.x[d] [] OTHER -> 0
Real3(g, e) == [d \in 1..3 |-> Moved(g, d, e.p[d], Frac(e, d))]
Structured(g, e) == \A d \in 1..3 : On(g, d, e.p[d])
Obs(e) == IF e.k = "-" THEN <<>> ELSE << e.k, e.id, e.p, e.x >>
QObs(s) == [i \in 1..4 |-> Obs(s[i])]
QStep(s, op) ==
  LET n == op[1]  i == op[2] + 1  t(e) == [st |-> [s EXCEPT ![i] = e], res |-> "ok"]  r(x) == [st |-> s, res |-> x]  e == s[i] IN
  CASE n = "new" -> t([k |-> op[3], id |-> op[4], p |-> op[5], x |-> op[6]])
    [] n = "bare" -> t([Blank(op[3]) EXCEPT !.p = IF op[3] \in {"R", "I"} THEN op[4] ELSE V0, !.x = IF op[3] = "C" THEN op[5] ELSE @])
    [] n = "blank" -> t(Blank(op[3]))
    [] n = "split" -> t(Split(op[3], op[4]))
    [] n \in {"clone", "copy", "assign"} -> t(s[op[3] + 1])
    [] n = "drop" -> t(Void)
    [] n = "id" -> t([e EXCEPT !.id = op[3]])
    [] n = "move" -> t([e EXCEPT !.p[op[3]] = op[4]])
    [] n = "rel" -> t([e EXCEPT !.x[op[3]] = op[4]])
    [] n = "eq" -> r(s[i] = s[op[3] + 1])
    [] n = "struct" -> r(Structured(op[3], e))
    [] n = "toI" -> t([k |-> "I", id |-> s[op[3] + 1].id, p |-> [d \in 1..3 |-> Index(op[4], d, s[op[3] + 1].p[d])], x |-> <<>>])
    [] n = "toR" -> t([k |-> "R", id |-> s[op[3] + 1].id, p |-> Real3(op[4], s[op[3] + 1]), x |-> <<>>])
QInv(s) == \A i \in 1..4 : LET e == s[i] IN
  /\ Len(e.x) = CASE e.k = "C" -> 2 [] e.k = "L" -> 3 [] OTHER -> 0
QTrans(s, op, t) ==
  /\ \A i \in 1..4 : i # op[2] + 1 => t[i] = s[i]
  \* to the grid and back is the same place; splitting keeps the number of cells
  /\ op[1] = "toI" => Real3(op[4], t[op[2] + 1]) = s[op[3] + 1].p
  /\ op[1] = "split" => \A d \in 1..3 : 8 * t[op[2] + 1].p[d] + t[op[2] + 1].x[d] = op[4][d] /\ t[op[2] + 1].x[d] \in 0..7
  \* a coordinate is never before its own line nor beyond the next one
  /\ op[1] = "toR" /\ (\A d \in 1..3 : Frac(s[op[3] + 1], d) \in 0..8) =>
       \A d \in 1..3 : LET p == s[op[3] + 1].p[d]  q == t[op[2] + 1].p[d] IN
            /\ At(op[4], d, p) <= q /\ (p + 1 < Len(op[4][d]) => q <= At(op[4], d, p + 1))
=============================================================================
