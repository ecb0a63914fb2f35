------------------------------- MODULE Exports -------------------------------
(* Files a data set is exported to (src/exporter/vtk, src/exporter/gid). The *)
(* state is a data set (module DataSet) and the scaling its solver speaks of *)
(* (<<>> or numerator and denominator). What a file says is a sequence of    *)
(* groups: a name and its cells, a cell being its kind and its positions.    *)
EXTENDS DataSet, Json
XInit == [d |-> NoData, f |-> <<>>]
BoundNames == << "PEC", "PMC", "PML" >>
SourceNames == [gen |-> "Generator", line |-> "OnLine", pw |-> "PlaneWave", dip |-> "Dipole"]
Drawn(m) == IF m.k = "S" THEN ToU(m) ELSE m
Prefix(m) == IF m.k = "S" THEN "str_" ELSE ""
Pick(m, ids) == SelectSeq(MapS(LAMBDA i : IF i \in Ids(m.es) THEN At(m.es, i) ELSE [id |-> 0], ids), LAMBDA e : e.id # 0)
\* ------------------------------------------- groups of elements, in order
Each(q, F(_)) == MapS(LAMBDA x : F(x), q)
ByLayer(x) ==
  LET m == Drawn(x.mesh)  q == x.mats[1] IN
  IF q = <<>> THEN Each(m.ls, LAMBDA l : << Prefix(x.mesh) \o l.name, SelectSeq(m.es, LAMBDA e : e.lay = l.id) >>)
  ELSE FlattenSeq(Each(m.ls, LAMBDA l : Each(q, LAMBDA a : << Prefix(x.mesh) \o a[2] \o "@" \o l.name, SelectSeq(m.es, LAMBDA e : e.lay = l.id /\ e.mat = a[1]) >>)))
BySource(x) == IF x.srcs = <<>> THEN <<>> ELSE Each(x.srcs[1], LAMBDA a : << Prefix(x.mesh) \o "EMSource_" \o SourceNames[a[1]], Pick(Drawn(x.mesh), a[2]) >>)
ByRequest(x) == IF x.outs = <<>> THEN <<>> ELSE Each(x.outs[1], LAMBDA a : << Prefix(x.mesh) \o "OutRq_" \o a[2], Pick(Drawn(x.mesh), a[3]) >>)
Filled(q) == SelectSeq(q, LAMBDA g : g[2] # <<>>)
\* ------------------------------------------------- the domain and its grid
Low(g) == [d \in 1..3 |-> g[d][1]]
High(g) == [d \in 1..3 |-> g[d][Len(g[d])]]
\* the face of a side, as the set of its corners
Face(g, k) == LET d == (k - 1) \div 2 + 1  v == IF k % 2 = 1 THEN Low(g)[d] ELSE High(g)[d] IN
  { p \in { << a, b, c >> : a \in {Low(g)[1], High(g)[1]}, b \in {Low(g)[2], High(g)[2]}, c \in {Low(g)[3], High(g)[3]} } : p[d] = v }
GridLines(g) == UNION { UNION { { { [Low(g) EXCEPT ![o] = v], [Low(g) EXCEPT ![o] = v, ![6 - d - o] = High(g)[6 - d - o]] } : v \in ToSet(g[o]) } : o \in (1..3) \ {d} } : d \in 1..3 }
Condition(m, k) == (IF m.bd[k] = 0 THEN "Undefined" ELSE BoundNames[m.bd[k]]) \o "@Boundary"
\* corners of a face come around it
Around(c) == Len(c) = 4 /\ \A k \in 1..4 : LET a == c[k]  b == c[(k % 4) + 1] IN Cardinality({ d \in 1..3 : a[d] # b[d] }) = 1
\* ------------------------------------------------------------------- cells
Shape(m, e) == MapS(LAMBDA i : At(m.cs, i).p, CASE e.ty = "Tri6" -> << e.cs[1], e.cs[4], e.cs[6] >> [] e.ty = "Tet10" -> << e.cs[1], e.cs[5], e.cs[8], e.cs[10] >> [] OTHER -> e.cs)
Points(e) == ToSet(CASE e.ty = "Tri6" -> << e.cs[1], e.cs[4], e.cs[6] >> [] e.ty = "Tet10" -> << e.cs[1], e.cs[5], e.cs[8], e.cs[10] >> [] OTHER -> e.cs)
NPoints(q) == Cardinality(UNION { Points(e) : e \in ToSet(q) })
Bag(q) == [x \in ToSet(q) |-> Cardinality({ k \in 1..Len(q) : q[k] = x })]
\* VTK: every kind is a cell
VtkType == [Node |-> 1, Line |-> 3, Poly |-> 4, Tri3 |-> 5, Tri6 |-> 5, Qua4 |-> 9, Tet4 |-> 10, Tet10 |-> 10, Hex8 |-> 12]
VtkCells(m, q) == Bag(MapS(LAMBDA e : << VtkType[e.ty], Shape(m, e) >>, q))
Valid(t) == FoldSeq(LAMBDA c, acc : acc \o (IF c = "/" THEN "_" ELSE c), "", [k \in 1..Len(t) |-> SubSeq(t, k, k)])
VtkGroups(x) == MapS(LAMBDA g : << Valid(g[1]), NPoints(g[2]), VtkCells(Drawn(x.mesh), g[2]) >>, Filled(ByLayer(x) \o BySource(x) \o ByRequest(x)))
VtkSides(x) == IF x.mesh.k # "S" THEN <<>> ELSE SelectSeq([k \in 1..6 |-> << Condition(x.mesh, k), x.mesh.bd[k], Face(x.mesh.grid, k) >>], LAMBDA g : g[2] # 0)
VtkNames(x) == MapS(LAMBDA g : g[1], VtkGroups(x)) \o MapS(LAMBDA g : g[1], VtkSides(x)) \o (IF x.mesh.k = "S" THEN << "Grid" >> ELSE <<>>)
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
\* what was read is one file for each group, named after it, under a name of its own
VtkOK(x, r) ==
  LET n == VtkNames(x)  g == VtkGroups(x)  b == VtkSides(x) IN
  /\ r[1] = "files" /\ Len(r[2]) = Len(n)
  /\ \A k \in 1..Len(n) : LET y == r[2][k] IN
       /\ StartsWith(y[1], n[k]) /\ \A j \in 1..Len(n) : j # k => r[2][j][1] # y[1]
       /\ (\A j \in 1..Len(n) : j # k => n[j] # n[k]) => Len(y[1]) = Len(n[k])
       /\ IF k <= Len(g) THEN y[2] = g[k][2] /\ Bag(y[3]) = g[k][3]
          ELSE IF k <= Len(g) + Len(b) THEN y[2] = 4 /\ Len(y[3]) = 1 /\ y[3][1][1] = 9 /\ ToSet(y[3][1][2]) = b[k - Len(g)][3] /\ Around(y[3][1][2])
          ELSE /\ \A c \in ToSet(y[3]) : c[1] = 3 /\ Len(c[2]) = 2
               /\ { ToSet(c[2]) : c \in ToSet(y[3]) } = GridLines(x.mesh.grid)
               /\ y[2] = Cardinality(UNION GridLines(x.mesh.grid))
\* GiD: a mesh for each kind in each group, unscaled; kinds it does not draw are left out
GidKinds == << << "Node", "Point" >>, << "Line", "Linear" >>, << "Tri3", "Triangle" >>, << "Qua4", "Quadrilateral" >>, << "Tet4", "Tetrahedra" >>, << "Hex8", "Hexahedra" >> >>
Unscale(p, f) == IF f = <<>> \/ f[1] = 0 THEN p ELSE MapS(LAMBDA v : (v * f[2]) \div f[1], p)
GidElems(x) ==
  LET m == Drawn(x.d.mesh)  un(c) == MapS(LAMBDA p : Unscale(p, x.f), c) IN
  FlattenSeq(Each((IF x.d.mats[1] = <<>> THEN <<>> ELSE ByLayer(x.d)) \o BySource(x.d) \o ByRequest(x.d), LAMBDA g :
    SelectSeq(MapS(LAMBDA t : LET q == SelectSeq(g[2], LAMBDA e : e.ty = t[1]) IN << g[1], t[2], NPoints(q), Bag(MapS(LAMBDA e : un(Shape(m, e)), q)) >>, GidKinds), LAMBDA z : z[3] > 0)))
GidSides(x) == IF x.d.mesh.k # "S" THEN <<>> ELSE
  LET un(S) == { Unscale(p, x.f) : p \in S }
      names == { Condition(x.d.mesh, k) : k \in 1..6 }
      of(n) == { un(Face(x.d.mesh.grid, k)) : k \in { j \in 1..6 : Condition(x.d.mesh, j) = n } } IN
  SetToSeq({ << n, "Quadrilateral", of(n) >> : n \in names })
GidOK(x, r) ==
  LET g == GidElems(x)  b == GidSides(x)  un(S) == { { Unscale(p, x.f) : p \in c } : c \in S }
      drawn == SelectSeq(r[2], LAMBDA y : x.d.mesh.k # "S" \/ StartsWith(y[1], "str_"))
      rest == SelectSeq(r[2], LAMBDA y : ~(x.d.mesh.k # "S" \/ StartsWith(y[1], "str_")))
      sides == SelectSeq(rest, LAMBDA y : y[1] # "Grid")  lines == SelectSeq(rest, LAMBDA y : y[1] = "Grid") IN
  /\ r[1] = "files"
  /\ Bag(MapS(LAMBDA y : << y[1], y[2], y[3], Bag(y[4]) >>, drawn)) = Bag(g)
  /\ Len(sides) = Len(b) /\ \A k \in 1..Len(b) : \E j \in 1..Len(sides) : LET y == sides[j] IN
       y[1] = b[k][1] /\ y[2] = b[k][2] /\ Len(y[4]) = Cardinality(b[k][3]) /\ { ToSet(c) : c \in ToSet(y[4]) } = b[k][3] /\ (\A c \in ToSet(y[4]) : Around(c))
       /\ y[3] = Cardinality(UNION b[k][3])
  /\ IF x.d.mesh.k # "S" THEN lines = <<>>
     ELSE /\ Len(lines) = 1 /\ lines[1][2] = "Linear" /\ { ToSet(c) : c \in ToSet(lines[1][4]) } = un(GridLines(x.d.mesh.grid))
          /\ lines[1][3] = Cardinality(UNION GridLines(x.d.mesh.grid))
\* ------------------------------------------------------------- transitions
Ready(x) == x.d.on /\ x.d.mesh.k # "-" /\ x.d.mats # <<>>
XStep(x, op) ==
  LET n == op[1]  t(y) == [st |-> y, res |-> "ok"] IN
  CASE n \in {"vtk", "gid"} -> [st |-> x, res |-> IF Ready(x) THEN "files" ELSE "spared"]
    [] n = "bound" -> t([x EXCEPT !.d.mesh = MStep(<< @, Nothing, Nothing >>, op).st[1]])
    [] n = "factor" -> t([d |-> [x.d EXCEPT !.sol = << "f" >>], f |-> << op[3], op[4] >>])
    [] OTHER -> t([d |-> DStep(<< x.d, NoData, NoData >>, op).st[1], f |-> IF n \in {"build", "solver", "drop"} THEN <<>> ELSE x.f])
XInv(x) ==
  Ready(x) =>
    \* every element with a layer, and a material if there are some, is in one group of its layer
    LET m == Drawn(x.d.mesh)  q == ByLayer(x.d) IN
    \A e \in ToSet(m.es) : LET n == Cardinality({ k \in 1..Len(q) : e \in ToSet(q[k][2]) }) IN
      n = IF e.lay # 0 /\ (x.d.mats[1] = <<>> \/ e.mat # 0) THEN 1 ELSE 0
XTrans(x, op, t) == op[1] \in {"vtk", "gid"} => t = x
=============================================================================
