------------------------------- MODULE Import -------------------------------
(* Import of a project written as JSON (src/parser/json).  The state is the  *)
(* document, the observation what importing it yields: "refused", or         *)
(* << solver, materials, mesh, sources, output requests >>.                  *)
(* Positions, boxes and the scaling factor are integers counting halves, so  *)
(* scaled positions count quarters; grid lines count 1/24000ths.  A document *)
(* is a record:                                                              *)
(*   ver; solver <<name, factor, settings>> or <<>>; grid; omit (sections);  *)
(*   mats <<id, name, kind, arguments>> (kinds as in Models);                *)
(*   layers <<id, name>>; coords <<id, x, y, z>>;                            *)
(*   elems <<type, id, material, layer, vertices>>;                          *)
(*   conns <<coordinate, name, kind, arguments>>;                            *)
(*   srcs <<kind, magnitude, target, parameters>>;                           *)
(*   outs <<place, name, type, domain, target, parameters>>;                 *)
(*   bad <<section, position, key, how>>: the key of an item is lost, or     *)
(*   holds a text that is not in the vocabulary.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
M == INSTANCE Models
V == INSTANCE Devices
Pad == INSTANCE Enlarge
NoDoc == [ver |-> "0.14", solver |-> <<>>, mats |-> <<>>, grid |-> <<>>, layers |-> <<>>, coords |-> <<>>, elems |-> <<>>, conns |-> <<>>, srcs |-> <<>>, outs |-> <<>>, omit |-> <<>>, bad |-> <<>>]
JInit == NoDoc
Version == "0.14"
Omits(d, k) == k \in ToSet(d.omit)
Col(q, i) == [n \in 1..Len(q) |-> q[n][i]]
Uniq(q) == Cardinality(ToSet(q)) = Len(q)
Damaged(d, sec) == \E i \in 1..Len(d.bad) : d.bad[i][1] = sec /\ (sec \in {"grid", "solver"} \/ d.bad[i][2] <= Len(d[sec]))
Lost(d, sec, n, key) == \E i \in 1..Len(d.bad) : d.bad[i][1] = sec /\ d.bad[i][2] = n /\ d.bad[i][3] = key
(* materials: a lost name is an empty one *)
Mats(d) == IF Omits(d, "materials") THEN <<>> ELSE d.mats
Serious(d, sec) == \E i \in 1..Len(d.bad) : d.bad[i][1] = sec /\ d.bad[i][2] <= Len(d[sec]) /\ (d.bad[i][3] = "name" => d[sec][d.bad[i][2]][3] = "Multilayer")
MatsBad(d) == ~Omits(d, "materials") /\
  ( Serious(d, "mats") \/ ~Uniq(Col(d.mats, 1)) \/ \E i \in 1..Len(d.mats) : d.mats[i][1] <= 0 \/ M!BadArgs(d.mats[i][3], d.mats[i][4]) )
Model(id, name, k, a) == [k |-> k, id |-> id, nm |-> name, a |-> a, ex |-> <<>>]
MaxOf(S) == CHOOSE x \in S \cup {0} : \A y \in S \cup {0} : y <= x
(* the mesh *)
CIds(d) == ToSet(Col(d.coords, 1))
EIds(d) == ToSet(Col(d.elems, 2))
LIds(d) == ToSet(Col(d.layers, 1))
MIds(d) == ToSet(Col(Mats(d), 1))
Pos(d, c) == LET i == CHOOSE i \in 1..Len(d.coords) : d.coords[i][1] = c IN SubSeq(d.coords[i], 2, 4)
FlatTet(d, e) == e[1] = "Tet4" /\ \E k \in 1..3 : Cardinality({ Pos(d, e[5][i])[k] : i \in 1..4 }) = 1
NoLines(g) == CASE g[1] = "file" -> \E k \in 2..4 : g[k] = <<>> [] g[1] = "cells" -> g[3] = << 0, 0, 0 >> [] OTHER -> FALSE
GridBad(d) == Len(d.grid) = 0 \/ Damaged(d, "grid") \/ d.grid[1] \in {"nofile", "part"} \/ NoLines(d.grid)
ElemLabel(t) == CASE t = "Hex8" -> "hexahedra" [] t = "Tet4" -> "tetrahedra" [] t = "Qua4" -> "quadrilateral" [] t = "Tri3" -> "triangle" [] t = "Line" -> "line"
MeshSections == {"grids", "layers", "coordinates", "elements", "hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"}
NoMesh(d) ==
  \/ ToSet(d.omit) \cap MeshSections # {} \/ GridBad(d) \/ Damaged(d, "layers")
  \/ ~Uniq(Col(d.layers, 1)) \/ ~Uniq(Col(d.coords, 1)) \/ ~Uniq(Col(d.elems, 2))
  \/ \E i \in 1..Len(d.elems) : LET e == d.elems[i] IN
       \/ ~(ToSet(e[5]) \subseteq CIds(d)) \/ (e[3] # 0 /\ e[3] \notin MIds(d)) \/ (e[4] # 0 /\ e[4] \notin LIds(d))
       \/ FlatTet(d, e)
(* grid lines before scaling: 1/24000ths are 12000 per half *)
H == 12000
Base(g) ==
  CASE g[1] = "cells" -> [k \in 1..3 |-> [i \in 1..(g[3][k] + 1) |-> H * g[2][k] + ((i - 1) * H * (g[2][k + 3] - g[2][k])) \div g[3][k]]]
    [] g[1] = "steps" -> [k \in 1..3 |-> LET L == g[2][k + 3] - g[2][k]  w == g[3][k]
                                            n == (2 * L + w) \div (2 * w)  f == IF n = 0 THEN 1 ELSE n
                                            c == (L + w - 1) \div w
                                        IN IF g[4] = 1 THEN [i \in 1..(f + 1) |-> H * g[2][k] + ((i - 1) * H * L) \div f]
                                           ELSE [i \in 1..(c + 1) |-> H * (g[2][k] + (i - 1) * w)]]
    [] g[1] = "native" -> [k \in 1..3 |-> [i \in 1..(g[4][k] + 1) |-> H * g[2][k] + ((i - 1) * H * g[3][k]) \div g[4][k]]]
    [] OTHER -> [k \in 1..3 |-> [i \in 1..Len(g[k + 1]) |-> H * g[k + 1][i]]]
Padding(g) == CASE g[1] = "cells" -> g[4] [] g[1] = "steps" -> g[5] [] OTHER -> <<>>
(* lower padding and mesh size, upper padding and mesh size along an axis *)
PadArg(g, k) == LET p == Padding(g)  w(i) == IF p[5] = 1 THEN (H * p[i][k] * p[i - 2][k]) \div 2 ELSE H * p[i][k] IN
                IF p = <<>> THEN << 0, 0, 0, 0 >> ELSE << w(3), H * p[1][k], w(4), H * p[2][k] >>
Factor(d) == IF d.solver = <<>> \/ Omits(d, "solverOptions") THEN 2 ELSE d.solver[2]
Scl(x, s) == (x * s) \div 2
ScaledBase(d) == [k \in 1..3 |-> LET q == Base(d.grid)[k] IN [i \in 1..Len(q) |-> Scl(q[i], Factor(d))]]
GridOK(d, got) == \A k \in 1..3 : LET a == [i \in 1..4 |-> Scl(PadArg(d.grid, k)[i], Factor(d))]  q == ScaledBase(d)[k] IN
  IF Padding(d.grid) = <<>> THEN got[k] = q ELSE Len(got[k]) >= Len(q) /\ Pad!Padded(q, got[k], a[1], a[2], a[3], a[4])
GridLines(d) == [k \in 1..3 |-> LET a == [i \in 1..4 |-> Scl(PadArg(d.grid, k)[i], Factor(d))]  q == ScaledBase(d)[k] IN
  Pad!Below(q, Pad!Canon(Pad!W(q, 0), a[1], a[2])) \o q \o Pad!Above(q, Pad!Canon(Pad!W(q, 1), a[3], a[4]))]
(* what the file refers to: its own elements by identifier, the ones the     *)
(* import creates by type, layer, material and sorted positions              *)
Times(p, s) == [k \in 1..3 |-> p[k] * s]
Ends(a, b) == IF a = b THEN <<a>> ELSE <<a, b>>
Corners(b) == FlattenSeq([i \in 1..Len(Ends(b[1], b[4])) |-> FlattenSeq([j \in 1..Len(Ends(b[2], b[5])) |-> [k \in 1..Len(Ends(b[3], b[6])) |->
                 << Ends(b[1], b[4])[i], Ends(b[2], b[5])[j], Ends(b[3], b[6])[k] >>]])])
Dim(b) == Cardinality({ k \in 1..3 : b[k] # b[k + 3] })
BoxElem(b, s) == << << "Node", "Line", "Qua4", "Hex8" >>[Dim(b) + 1], 0, 0, [i \in 1..Len(Corners(b)) |-> Times(Corners(b)[i], s)] >>
NodeElem(d, c, mat) == << "Node", 0, mat, << Times(Pos(d, c), Factor(d)) >> >>
OwnElems(t) == [i \in 1..Len(t) |-> << t[i] >>]
NodeElems(d, t) == [i \in 1..Len(t) |-> NodeElem(d, t[i], 0)]
SrcTarget(d, x) == CASE x[1] = "pw" -> << BoxElem(x[3], Factor(d)) >> [] x[1] = "gen" -> NodeElems(d, x[3]) [] OTHER -> OwnElems(x[3])
OutTarget(d, x) == CASE x[1] \in {"layer", "far"} -> << BoxElem(x[5], Factor(d)) >> [] x[1] = "point" -> NodeElems(d, x[5]) [] OTHER -> OwnElems(x[5])
Fresh(d) == [i \in 1..Len(d.conns) |-> NodeElem(d, d.conns[i][1], MaxOf(MIds(d)) + i)]
            \o FlattenSeq([i \in 1..Len(d.srcs) |-> IF d.srcs[i][1] \in {"pw", "gen"} THEN SrcTarget(d, d.srcs[i]) ELSE <<>>])
            \o FlattenSeq([i \in 1..Len(d.outs) |-> IF d.outs[i][1] \in {"layer", "far", "point"} THEN OutTarget(d, d.outs[i]) ELSE <<>>])
Boxes(d) == { d.srcs[i][3] : i \in { j \in 1..Len(d.srcs) : d.srcs[j][1] = "pw" } } \cup { d.outs[i][5] : i \in { j \in 1..Len(d.outs) : d.outs[j][1] \in {"layer", "far"} } }
FreshCoords(d) == UNION { ToSet(Corners(b)) : b \in Boxes(d) } \ { Pos(d, c) : c \in CIds(d) }
Bound(d, els) == LET P == { Pos(d, v) : v \in UNION { ToSet(d.elems[i][5]) : i \in { j \in 1..Len(d.elems) : d.elems[j][2] \in ToSet(els) } } }
                     lo(k) == CHOOSE x \in { p[k] : p \in P } : \A p \in P : x <= p[k]
                     hi(k) == CHOOSE x \in { p[k] : p \in P } : \A p \in P : x >= p[k]
                 IN << << lo(1), lo(2), lo(3) >>, << hi(1), hi(2), hi(3) >> >>
(* sources *)
MagBad(m) == CASE m[1] = "B" -> m[2] <= 0 \/ m[2] >= m[3] [] m[1] = "F" -> m[2] # "exc.txt" [] OTHER -> FALSE
SrcBad(d, x) ==
  \/ MagBad(x[2])
  \/ CASE x[1] = "pw" -> Dim(x[3]) # 3 \/ V!Bad("pw", <<>>, x[4])
       [] x[1] = "gen" -> ~(ToSet(x[3]) \subseteq CIds(d)) \/ x[4][1] \notin {"voltage", "current"}
       [] x[1] = "line" -> ~(ToSet(x[3]) \subseteq EIds(d))
       [] x[1] = "wg" -> ~(ToSet(x[3]) \subseteq EIds(d)) \/ x[3] = <<>> \/ (x[4][2] = 0 /\ x[4][3] = 0) \/ Bound(d, x[3])[1][3] # Bound(d, x[3])[2][3]
       [] x[1] = "tem" -> ~(ToSet(x[3]) \subseteq EIds(d))
SrcInfo(d, x) == LET p == x[4]  s == Factor(d) IN
  CASE x[1] = "pw" -> IF p[1] = "r" THEN << V!Zero, V!Zero, TRUE, p[2], p[3] >> ELSE V!Wave(p) \o << FALSE, 0, 0 >>
    [] x[1] = "gen" -> << IF p[1] = "voltage" THEN 1 ELSE 2 >>
    [] x[1] = "line" -> << IF p[1] = "electricField" THEN 1 ELSE 2, IF p[2] = "hard" THEN 1 ELSE 2 >>
    [] x[1] = "wg" -> LET b == Bound(d, x[3]) IN << p[1], p[2], p[3], Times(b[1], s), s * (b[2][1] - b[1][1]), s * (b[2][2] - b[1][2]) >>
    [] x[1] = "tem" -> << IF p[1] = "Voltage" THEN "voltage" ELSE "current", IF s = 2 THEN p[2] ELSE "any", (840 * p[4]) \div p[3] >>
Src(d, x) == << x[1], x[2], SrcTarget(d, x), SrcInfo(d, x) >>
(* output requests *)
Bulk == {"bulkCurrentElectric", "bulkCurrentMagnetic"}
OutTy(x) == IF x[1] = "far" THEN 9 ELSE
  CASE x[3] = "electricField" -> 0 [] x[3] = "magneticField" -> 1 [] x[3] = "electricFieldNormals" -> 2 [] x[3] = "magneticFieldNormals" -> 3
    [] x[3] = "surfaceCurrentDensity" -> 4 [] x[3] = "bulkCurrentElectric" -> 5 [] x[3] = "bulkCurrentMagnetic" -> 6 [] x[3] = "current" -> 7
OutBad(d, x) == CASE x[1] \in {"layer", "far"} -> FALSE [] x[1] = "point" -> ~(ToSet(x[5]) \subseteq CIds(d)) [] OTHER -> ~(ToSet(x[5]) \subseteq EIds(d))
\* a domain whose parts are absent has zeros there; the transfer function belongs to the frequency part
Domain(q) == (IF q[1] THEN SubSeq(q, 1, 4) ELSE << FALSE, 0, 0, 0 >>) \o (IF q[5] THEN SubSeq(q, 5, 9) \o (IF q[10] THEN << TRUE, q[11] >> ELSE << FALSE, "" >>) ELSE << FALSE, 0, 0, 0, FALSE, FALSE, "" >>)
Axis(a) == CASE a = "x" -> 0 [] a = "y" -> 1 [] a = "z" -> 2
Out(d, x) == << IF x[3] \in Bulk THEN "bulk" ELSE IF x[1] = "far" THEN "far" ELSE "elem", x[2], OutTy(x), Domain(x[4]), OutTarget(d, x),
                IF x[3] \in Bulk THEN << Axis(x[6][1]), x[6][2] >> ELSE x[6] >>
(* the whole *)
AfterMesh(d) ==
  \/ ToSet(d.omit) \cap {"connectorOnPoint", "sources", "outputRequests"} # {} \/ Serious(d, "conns") \/ Damaged(d, "srcs") \/ Damaged(d, "outs")
  \/ \E i \in 1..Len(d.conns) : d.conns[i][1] \notin CIds(d) \/ M!BadArgs(d.conns[i][3], d.conns[i][4])
  \/ \E i \in 1..Len(d.srcs) : SrcBad(d, d.srcs[i])
  \/ \E i \in 1..Len(d.outs) : OutBad(d, d.outs[i])
  \/ Factor(d) = 0
Refused(d) == Omits(d, "_version") \/ d.ver # Version \/ (d.solver # <<>> /\ ~Omits(d, "solverOptions") /\ Damaged(d, "solver")) \/ MatsBad(d) \/ (~NoMesh(d) /\ AfterMesh(d))
RECURSIVE Sett(_)
Sett(o) == [i \in 1..Len(o) |-> << o[i][1], IF o[i][2] = "o" THEN << Sett(o[i][3]), Len(o[i][3]) >> ELSE o[i][3] >>]
Solver(d) == IF d.solver = <<>> \/ Omits(d, "solverOptions") THEN <<>> ELSE << d.solver[1], Sett(d.solver[3]), Len(d.solver[3]) + 1 + (IF d.solver[2] = 0 THEN 0 ELSE 1) >>
ById(q, i) == SortSeq(q, LAMBDA a, b : a[i] < b[i])
NameOf(d, sec, n) == IF Lost(d, sec, n, "name") THEN "" ELSE d[sec][n][2]
Models(d) == [i \in 1..Len(Mats(d)) |-> Model(d.mats[i][1], NameOf(d, "mats", i), d.mats[i][3], d.mats[i][4])]
ConnModels(d) == [i \in 1..Len(d.conns) |-> Model(MaxOf(MIds(d)) + i, NameOf(d, "conns", i), d.conns[i][3], d.conns[i][4])]
Shown(ms) == LET q == SortSeq(ms, LAMBDA a, b : a.id < b.id) IN [i \in 1..Len(q) |-> M!Shown(q[i])]
Kinds == << "Hex8", "Tet4", "Qua4", "Tri3", "Line" >>
Mesh(d) == << GridLines(d), ById(d.layers, 1), LET q == ById(d.coords, 1) IN [i \in 1..Len(q) |-> << q[i][1], Times(SubSeq(q[i], 2, 4), Factor(d)) >>],
              SetToSeq({ Times(p, Factor(d)) : p \in FreshCoords(d) }), LET q == ById(d.elems, 2) IN [i \in 1..Len(q) |-> << q[i][2], q[i][1], q[i][3], q[i][4], q[i][5] >>], Fresh(d) >>
JObs(d) == IF Refused(d) THEN "refused"
           ELSE IF NoMesh(d) THEN << Solver(d), Shown(Models(d)), "none", <<>>, <<>> >>
           ELSE << Solver(d), Shown(Models(d) \o ConnModels(d)), Mesh(d), [i \in 1..Len(d.srcs) |-> Src(d, d.srcs[i])], [i \in 1..Len(d.outs) |-> Out(d, d.outs[i])] >>
JStep(d, op) ==
  LET n == op[1]  t(x) == [st |-> x, res |-> "ok"] IN
  CASE n = "doc" -> t(op[2])
    [] n = "put" -> t([d EXCEPT ![op[2]] = Append(@, op[3])])
    [] n = "del" -> t([d EXCEPT ![op[2]] = SubSeq(@, 1, op[3] - 1) \o SubSeq(@, op[3] + 1, Len(@))])
    [] n = "set" -> t([d EXCEPT ![op[2]] = op[3]])
    [] OTHER -> t(d)
\* what is created by importing, in any order
Bag(q) == [x \in ToSet(q) |-> Cardinality({ i \in 1..Len(q) : q[i] = x })]
Eq(a, b) == ToJson(a) = ToJson(b)
Agrees(d, got) ==
  LET x == JObs(d) IN
  IF Eq(got, "refused") \/ Refused(d) THEN Eq(got, "refused") /\ Refused(d)
  ELSE /\ Eq(x[1], got[1]) /\ Eq(x[2], got[2]) /\ Eq(x[4], got[4]) /\ Eq(x[5], got[5])
       /\ IF NoMesh(d) \/ Eq(got[3], "none") THEN Eq(x[3], got[3])
          ELSE /\ GridOK(d, got[3][1]) /\ \A k \in {2, 3, 5} : Eq(x[3][k], got[3][k])
               /\ Len(x[3][4]) = Len(got[3][4]) /\ Bag(x[3][4]) = Bag(got[3][4])
               /\ Len(x[3][6]) = Len(got[3][6]) /\ Bag(x[3][6]) = Bag(got[3][6])
(* properties of the specification *)
JInv(d) ==
  /\ d.ver # Version => Refused(d)
  /\ ~Refused(d) =>
       LET o == JObs(d) IN
       /\ Agrees(d, o)
       /\ ~NoMesh(d) =>
            /\ Len(o[3][5]) = Len(d.elems) /\ Len(o[4]) = Len(d.srcs) /\ Len(o[5]) = Len(d.outs) /\ Len(o[2]) = Len(Mats(d)) + Len(d.conns)
            /\ \A e \in ToSet(o[3][5]) : ToSet(e[5]) \subseteq { c[1] : c \in ToSet(o[3][3]) } /\ (e[4] = 0 \/ \E l \in ToSet(o[3][2]) : l[1] = e[4]) /\ (e[3] = 0 \/ \E m \in ToSet(o[2]) : m[2] = e[3])
            \* every vertex of what was created is a coordinate of the mesh
            /\ \A e \in ToSet(o[3][6]) : \A p \in ToSet(e[4]) : p \in { c[2] : c \in ToSet(o[3][3]) } \cup ToSet(o[3][4])
            /\ \A k \in 1..3 : \A i \in 1..(Len(o[3][1][k]) - 1) : o[3][1][k][i] < o[3][1][k][i + 1]
Part(d, i) == IF Refused(d) THEN "refused" ELSE JObs(d)[i]
JTrans(s, op, t) ==
  \* a new source or request leaves the rest as it was
  /\ op[1] = "put" /\ op[2] \in {"srcs", "outs"} /\ ~Refused(t) => ~Refused(s) /\ \A i \in {1, 2} : Part(s, i) = Part(t, i)
  /\ op[1] = "put" /\ op[2] = "mats" /\ ~Refused(t) /\ ~Refused(s) => Part(s, 1) = Part(t, 1)
  /\ op[1] = "set" /\ op[2] = "bad" /\ op[3] # <<>> /\ s.omit = <<>> /\ ~Refused(s) => Refused(t) \/ NoMesh(t) \/ NoMesh(s) \/ \E i \in 1..Len(op[3]) : op[3][i][3] = "name"
=============================================================================
