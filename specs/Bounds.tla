-------------------------------- MODULE Bounds --------------------------------
(* Terminations of the six sides of the domain.  Registers 0 and 1 are        *)
(* terminations, 2 the options of the mesher, 3 and 4 structured meshes on a  *)
(* grid.  A termination maps side 1..6 (x lower, x upper, y lower, ...) to    *)
(* the name of a condition or "-".                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
Free == [b \in 1..6 |-> "-"]
None == [c |-> "none", grid |-> <<>>, b |-> Free]
NInit == << [None EXCEPT !.c = "set"], [None EXCEPT !.c = "set"], [None EXCEPT !.c = "options"], None, None >>
\* conditions by the label of the options; the silver-mueller condition has none
Labels == [PEC |-> "PEC", PMC |-> "PMC", PML |-> "PML", Periodic |-> "Periodic", MUR1 |-> "Mur1", MUR2 |-> "Mur2"]
Keys == << "lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound" >>
Conditions == { Labels[l] : l \in DOMAIN Labels } \cup {"SMA"}
Side(d, p) == 2 * d + p + 1
\* the face of the domain at a side, as its lowest and highest corner
Low(g) == [d \in 1..3 |-> g[d][1]]
High(g) == [d \in 1..3 |-> g[d][Len(g[d])]]
Face(g, d, p) == << IF p = 0 THEN Low(g) ELSE [Low(g) EXCEPT ![d + 1] = High(g)[d + 1]], IF p = 1 THEN High(g) ELSE [High(g) EXCEPT ![d + 1] = Low(g)[d + 1]] >>
Faces(x) == [k \in 1..6 |-> LET d == (k - 1) \div 2  p == (k - 1) % 2 IN
  << (IF x.b[k] = "-" THEN "Undefined" ELSE x.b[k]) \o "@Boundary", Face(x.grid, d, p) >>]
\* the grid is drawn as its lines on the three lower faces
GridLines(g) == UNION { UNION { { << [Low(g) EXCEPT ![o] = v], [Low(g) EXCEPT ![o] = v, ![6 - d - o] = High(g)[6 - d - o]] >> : v \in ToSet(g[o]) } : o \in (1..3) \ {d} } : d \in 1..3 }
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : LET k == SelectInSeq([i \in 1..6 |-> (a[1] \o a[2])[i] # (b[1] \o b[2])[i]], LAMBDA t : t) IN IF k = 0 THEN FALSE ELSE (a[1] \o a[2])[k] < (b[1] \o b[2])[k])
NStep(s, op) ==
  LET n == op[1]  i == op[2] + 1  ok(x) == [st |-> [s EXCEPT ![i] = x], res |-> "ok"]  rep(x) == [st |-> s, res |-> x] IN
  CASE n = "set" -> ok([s[i] EXCEPT !.b[Side(op[3], op[4])] = op[5]])
    [] n = "all" -> ok([s[i] EXCEPT !.b = op[3]])
    [] n = "new" -> ok([s[i] EXCEPT !.b = op[3]])
    [] n = "from" -> ok([s[i] EXCEPT !.b = s[op[3] + 1].b])
    [] n = "label" -> IF op[4] \notin DOMAIN Labels THEN rep("refused") ELSE ok([s[i] EXCEPT !.b[op[3]] = Labels[op[4]]])
    [] n = "labels" -> ok([s[i] EXCEPT !.b = [k \in 1..6 |-> IF op[3][k] = "" THEN s[i].b[k] ELSE Labels[op[3][k]]]])
    [] n = "mesh" -> ok([c |-> "mesh", grid |-> op[3], b |-> s[op[4] + 1].b])
    [] n \in {"copy", "assign", "clone"} -> ok(s[op[3] + 1])
    [] n = "scale" -> ok([s[i] EXCEPT !.grid = [d \in 1..3 |-> [k \in 1..Len(@[d]) |-> op[3] * @[d][k]]]])
    [] n = "drop" -> ok(IF op[2] > 2 THEN None ELSE [None EXCEPT !.c = s[i].c])
    [] n = "faces" -> rep(Faces(s[i]))
    [] n = "lines" -> rep(Sorted(GridLines(s[i].grid)))
NObs(s) == [i \in 1..5 |-> IF s[i].c = "none" THEN << "none" >> ELSE << s[i].c, s[i].grid, s[i].b >>]
NInv(s) == \A i \in 1..5 :
  /\ \A k \in 1..6 : s[i].b[k] \in Conditions \cup {"-"}
  /\ s[i].c = "mesh" => \A k \in 1..6 : LET f == Faces(s[i])[k][2]  d == (k - 1) \div 2 + 1 IN
       /\ f[1][d] = f[2][d]
       /\ \A e \in 1..3 : e # d => f[1][e] = Low(s[i].grid)[e] /\ f[2][e] = High(s[i].grid)[e]
       /\ \A j \in 1..6 : j # k => Faces(s[i])[j][2] # f
NTrans(s, op, t) ==
  /\ \A j \in 1..5 : j # op[2] + 1 => t[j] = s[j]
  /\ op[1] = "set" => \A k \in 1..6 : k # Side(op[3], op[4]) => t[op[2] + 1].b[k] = s[op[2] + 1].b[k]
=============================================================================
