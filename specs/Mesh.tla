-------------------------------- MODULE Mesh --------------------------------
(* Three registers holding meshes: unstructured (U), structured (S: cells of *)
(* a grid) or geometric (G: unstructured with a grid), or nothing ("-").     *)
(* Lengths are integers in units of 1/256.  A structured coordinate is a     *)
(* cell (I), a cell and quarters of the way to the next one per axis (L) or  *)
(* a cell and quarters along one axis (C: <<axis, quarters, 0>>).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Nothing == [k |-> "-", grid |-> <<>>, cs |-> <<>>, es |-> <<>>, ls |-> <<>>, bd |-> <<>>]
NoBounds == <<0, 0, 0, 0, 0, 0>>
MInit == <<Nothing, Nothing, Nothing>>
Crd(a) == [id |-> a[1], k |-> a[2], p |-> a[3], x |-> a[4]]
Elm(a) == [id |-> a[1], ty |-> a[2], cs |-> a[3], lay |-> a[4], mat |-> a[5]]
Lyr(a) == [id |-> a[1], name |-> a[2]]
MapS(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
Ids(q) == { q[i].id : i \in 1..Len(q) }
At(q, id) == q[CHOOSE i \in 1..Len(q) : q[i].id = id]
Upd(q, id, F(_)) == MapS(LAMBDA x : IF x.id = id THEN F(x) ELSE x, q)
Mk(k, grid, cs, es, ls) == [k |-> k, grid |-> grid, cs |-> MapS(Crd, cs), es |-> MapS(Elm, es), ls |-> MapS(Lyr, ls), bd |-> IF k = "S" THEN NoBounds ELSE <<>>]
MinI(X) == CHOOSE m \in X : \A y \in X : m <= y
MaxI(X) == CHOOSE m \in X : \A y \in X : y <= m
ZeroV == <<0, 0, 0>>

(* ---- positions and cells ---- *)
NC(q) == Len(q) - 1
PosC(grid, c) ==
  [d \in 1..3 |-> LET q == grid[d]  i == c.p[d] + 1
                      fr == CASE c.k = "L" -> c.x[d] [] c.k = "C" /\ c.x[1] = d - 1 -> c.x[2] [] OTHER -> 0
                  IN IF fr = 0 \/ i = Len(q) THEN q[i] ELSE q[i] + (fr * (q[i + 1] - q[i])) \div 4]
Near(q, x) == IF x <= q[1] THEN 0 ELSE IF x >= q[Len(q)] THEN NC(q)
              ELSE LET i == CHOOSE j \in 1..NC(q) : q[j] <= x /\ x < q[j + 1] IN IF 2 * (x - q[i]) < q[i + 1] - q[i] THEN i - 1 ELSE i
OnLines(grid, p) == \A d \in 1..3 : p[d] \in ToSet(grid[d])
Dim(ty) == CASE ty = "Node" -> 0 [] ty = "Line" -> 1 [] ty = "Qua4" -> 2 [] ty = "Hex8" -> 3 [] OTHER -> -1
\* the vertices are exactly the corners of a box of the dimension of the type
IsBox(ty, ps) ==
  LET P == ToSet(ps)  D == { d \in 1..3 : \E a, b \in P : a[d] # b[d] }
  IN /\ Dim(ty) >= 0 /\ Cardinality(D) = Dim(ty) /\ Cardinality(P) = Len(ps)
     /\ \A p \in P, d \in 1..3 : p[d] \in { MinI({ a[d] : a \in P }), MaxI({ a[d] : a \in P }) }
     /\ Len(ps) = 2 ^ Dim(ty)
Vs(m, e) == MapS(LAMBDA i : At(m.cs, i).p, e.cs)
Fits(m, grid, e) == Dim(e.ty) >= 0 /\ (\A p \in ToSet(Vs(m, e)) : OnLines(grid, p)) /\ IsBox(e.ty, Vs(m, e))
ToS(m, grid) == [k |-> "S", grid |-> grid, ls |-> m.ls, bd |-> NoBounds,
                 cs |-> MapS(LAMBDA c : [id |-> c.id, k |-> "I", p |-> [d \in 1..3 |-> Near(grid[d], c.p[d])], x |-> ZeroV], m.cs),
                 es |-> SelectSeq(m.es, LAMBDA e : Fits(m, grid, e))]
ToU(m) == [k |-> "U", grid |-> <<>>, ls |-> m.ls, bd |-> <<>>,
           cs |-> MapS(LAMBDA c : [id |-> c.id, k |-> "R", p |-> PosC(m.grid, c), x |-> ZeroV], m.cs),
           es |-> MapS(LAMBDA e : IF e.ty = "LConf" THEN [e EXCEPT !.ty = "Line"] ELSE e, SelectSeq(m.es, LAMBDA e : e.ty # "Poly"))]
ScaleV(p, a, b) == MapS(LAMBDA x : (x * a) \div b, p)
Scale(m, a, b) ==
  [m EXCEPT !.grid = MapS(LAMBDA q : ScaleV(q, a, b), @),
            !.cs = MapS(LAMBDA c : IF c.k = "R" THEN [c EXCEPT !.p = ScaleV(@, a, b)] ELSE c, @)]
Bbox(m) ==
  IF m.k = "S" THEN << [d \in 1..3 |-> m.grid[d][1]], [d \in 1..3 |-> m.grid[d][Len(m.grid[d])]] >>
  ELSE IF m.es = <<>> THEN <<"infinite">>
  ELSE LET P == UNION { ToSet(Vs(m, e)) : e \in ToSet(m.es) } IN
       << [d \in 1..3 |-> MinI({ p[d] : p \in P })], [d \in 1..3 |-> MaxI({ p[d] : p \in P })] >>

MStep(s, op) ==
  LET n == op[1]  r(i) == op[i] + 1
      t(x) == [st |-> [s EXCEPT ![r(2)] = x], res |-> "ok"]
      m == s[r(2)] IN
  CASE n = "new" -> t(Mk(op[3], op[4], op[5], op[6], op[7]))
    [] n \in {"copy", "clone", "assign"} -> t(s[r(3)])
    [] n = "drop" -> t(Nothing)
    [] n = "setLay" -> t([m EXCEPT !.es = Upd(@, op[3], LAMBDA e : [e EXCEPT !.lay = op[4]])])
    [] n = "setMat" -> t([m EXCEPT !.es = Upd(@, op[3], LAMBDA e : [e EXCEPT !.mat = op[4]])])
    [] n = "setV" -> t([m EXCEPT !.es = Upd(@, op[3], LAMBDA e : [e EXCEPT !.cs[op[4]] = op[5]])])
    [] n = "move" -> t([m EXCEPT !.cs = Upd(@, op[3], LAMBDA c : [c EXCEPT !.p = op[4]])])
    [] n = "addC" -> t([m EXCEPT !.cs = Append(@, Crd(op[3]))])
    [] n = "addE" -> t([m EXCEPT !.es = Append(@, Elm(op[3]))])
    [] n = "addL" -> t([m EXCEPT !.ls = Append(@, Lyr(op[3]))])
    [] n = "remE" -> t([m EXCEPT !.es = SelectSeq(@, LAMBDA e : e.id \notin ToSet(op[3]))])
    [] n = "pad" -> t([m EXCEPT !.grid[op[3] + 1] = Append(@, @[Len(@)] + op[4])])
    [] n = "bound" -> t([m EXCEPT !.bd[2 * op[3] + op[4] + 1] = op[5]])
    [] n = "scale" -> t(Scale(m, op[3], op[4]))
    [] n = "toS" -> t(ToS(s[r(3)], IF op[4] = <<>> THEN s[r(3)].grid ELSE op[4]))
    [] n = "toU" -> t(ToU(s[r(3)]))
    [] n = "retarget" -> [st |-> s, res |-> MapS(LAMBDA i : << i, "here" >>, op[3])]
    [] n = "step" -> [st |-> s, res |-> MinI(UNION { { q[i + 1] - q[i] : i \in 1..NC(q) } : q \in ToSet(m.grid) })]
ObsM(m) == IF m.k = "-" THEN <<"-">> ELSE
  << m.k, m.grid, MapS(LAMBDA c : << c.id, c.k, c.p, c.x >>, m.cs), MapS(LAMBDA e : << e.id, e.ty, e.cs, e.lay, e.mat >>, m.es),
     MapS(LAMBDA l : << l.id, l.name >>, m.ls), m.bd, Bbox(m), "closed" >>
Obs(s) == << MapS(ObsM, s), "apart" >>

(* Every mesh is closed; identifiers are distinct. *)
Distinct(q) == Cardinality(Ids(q)) = Len(q)
MInv(s) == \A i \in 1..3 : LET m == s[i] IN
  /\ Distinct(m.cs) /\ Distinct(m.es) /\ Distinct(m.ls)
  /\ \A e \in ToSet(m.es) : ToSet(e.cs) \subseteq Ids(m.cs) /\ e.lay \in Ids(m.ls) \cup {0}
  /\ m.k = "S" => \A c \in ToSet(m.cs), d \in 1..3 : c.p[d] \in 0..NC(m.grid[d])
(* A converted element is an element of the source with its attributes, at   *)
(* the same place; an operation changes only the register it writes; scaling *)
(* by a factor and then its inverse restores the mesh.                       *)
MTrans(s, op, t) ==
  /\ \A i \in 1..3 : op[1] # "kind" /\ i # op[2] + 1 => t[i] = s[i]
  /\ op[1] \in {"toS", "toU"} =>
       LET a == s[op[3] + 1]  b == t[op[2] + 1] IN
       /\ \A e \in ToSet(b.es) : \E f \in ToSet(a.es) : [f EXCEPT !.ty = e.ty] = e
       /\ op[1] = "toS" => \A e \in ToSet(b.es) : \A i \in 1..Len(e.cs) : PosC(b.grid, At(b.cs, e.cs[i])) = At(a.cs, e.cs[i]).p
       /\ op[1] = "toU" => \A e \in ToSet(b.es) : \A i \in 1..Len(e.cs) : At(b.cs, e.cs[i]).p = PosC(a.grid, At(a.cs, e.cs[i]))
       \* structured boxes come back unchanged
       /\ op[1] = "toU" /\ (\A c \in ToSet(a.cs) : c.k = "I") =>
            LET c == ToS(b, a.grid) IN
            c.cs = a.cs /\ \A e \in ToSet(a.es) : (Dim(e.ty) >= 0 /\ IsBox(e.ty, Vs(a, e))) => e \in ToSet(c.es)
  /\ op[1] = "scale" /\ op[3] # 0 => Scale(t[op[2] + 1], op[4], op[3]) = s[op[2] + 1]
=============================================================================
