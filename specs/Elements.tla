------------------------------ MODULE Elements ------------------------------
(* A collection of geometric elements over a fixed lattice of coordinates   *)
(* (identifier k at Pos(k)), with a layer and a material each (0: none).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Pos(k) == << (k-1) % 3, ((k-1) \div 3) % 2, (k-1) \div 6 >>
EInit == [kind |-> "none", es |-> <<>>]
ESet(s) == { s.es[i] : i \in 1..Len(s.es) }
NextId(s) == LET I == {0} \cup { e.id : e \in ESet(s) } IN CHOOSE m \in I : \A x \in I : x <= m
Mk(op, id) == [id |-> id, ty |-> op[2], rk |-> op[3], cs |-> op[4], lay |-> op[5], mat |-> op[6]]
Desc(e) == << e.id, e.ty, e.rk, e.cs, e.lay, e.mat >>
IdsOfE(q) == [i \in 1..Len(q) |-> q[i].id]
Sel(s, T(_)) == IdsOfE(SelectSeq(s.es, T))
\* the vertices of an element (a polyline has two: its ends)
Verts(e) == CASE e.ty = "Poly" -> << e.cs[1], e.cs[Len(e.cs)] >>
              [] e.ty = "Tri6" -> << e.cs[1], e.cs[4], e.cs[6] >>
              [] OTHER -> e.cs
Crds(s, d) == { Pos(k)[d] : k \in UNION { ToSet(e.cs) : e \in ESet(s) } }
MinI(X) == CHOOSE m \in X : \A x \in X : m <= x
MaxI(X) == CHOOSE m \in X : \A x \in X : x <= m
Box(cs) == << [d \in 1..3 |-> MinI({ Pos(k)[d] : k \in ToSet(cs) })], [d \in 1..3 |-> MaxI({ Pos(k)[d] : k \in ToSet(cs) })] >>
Bound(s) == << [d \in 1..3 |-> MinI(Crds(s, d))], [d \in 1..3 |-> MaxI(Crds(s, d))] >>
LexLess(p, q) == \E d \in 1..3 : p[d] < q[d] /\ \A j \in 1..(d - 1) : p[j] = q[j]
Lexi(e) == LET V == ToSet(Verts(e)) IN
           << CHOOSE k \in V : \A x \in V \ {k} : LexLess(Pos(k), Pos(x)), CHOOSE k \in V : \A x \in V \ {k} : LexLess(Pos(x), Pos(k)) >>
SortNums(q) == SortSeq(q, <)
\* distance to a point given in half units, squared, in quarter units
Dist(k, p) == LET d(j) == 2 * Pos(k)[j] - p[j] IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
RVerts(s) == UNION { ToSet(e.cs) : e \in { x \in ESet(s) : x.rk = "R" } }
SetAt(s, T(_), F(_)) == [s EXCEPT !.es = [i \in 1..Len(s.es) |-> IF T(s.es[i]) THEN F(s.es[i]) ELSE s.es[i]]]
Drop(s, T(_)) == [s EXCEPT !.es = SelectSeq(@, LAMBDA e : ~T(e))]
R(t, r) == [st |-> t, res |-> r]

EStep(s, op) ==
  LET n == op[1] IN
  CASE n = "kind" -> R([s EXCEPT !.kind = op[2]], "ok")
    [] n = "push" -> R([s EXCEPT !.es = Append(@, Mk(op, NextId(s) + 1))], "ok")
    [] n = "pushN" -> R([s EXCEPT !.es = @ \o [i \in 1..Len(op[2]) |-> Mk(op[2][i], NextId(s) + i)]], "ok")
    [] n = "mats" -> R(s, Sel(s, LAMBDA e : e.mat \in ToSet(op[2])))
    [] n = "layers" -> R(s, Sel(s, LAMBDA e : e.lay \in ToSet(op[2])))
    [] n = "inside" -> R(s, IF s.kind # "R" THEN "n/a" ELSE
         Sel(s, LAMBDA e : \A k \in ToSet(e.cs), d \in 1..3 : op[2][d] <= 2 * Pos(k)[d] /\ 2 * Pos(k)[d] <= op[3][d]))
    [] n \in {"index", "closest"} -> R(s, "below")
    [] n = "lexi" -> R(s, Lexi(s.es[op[2]]))
    [] n = "eq" -> LET e == s.es[op[2]] IN
         R(s, CASE op[3] = "layer" -> (IF e.lay = op[4] THEN 1 ELSE 0)
                [] op[3] = "mat" -> (IF e.mat = op[4] THEN 1 ELSE 0)
                [] op[3] = "id" -> (IF e.id = op[4] THEN 1 ELSE 0)
                [] op[3] = "coord" -> (IF e.cs[1] = op[4] THEN 1 ELSE 0)
                [] OTHER -> (IF op[2] = op[4] THEN 1 ELSE 0))
    [] n = "isCoord" -> R(s, IF op[3] \in ToSet(s.es[op[2]].cs) THEN 1 ELSE 0)
    [] n = "setModelAll" -> R(SetAt(s, LAMBDA e : TRUE, LAMBDA e : [e EXCEPT !.mat = op[2]]), "ok")
    [] n = "setLayerAll" -> R(SetAt(s, LAMBDA e : TRUE, LAMBDA e : [e EXCEPT !.lay = op[2]]), "ok")
    [] n = "setModel" -> R(SetAt(s, LAMBDA e : e.id = op[2], LAMBDA e : [e EXCEPT !.mat = op[3]]),
                           IF \E e \in ESet(s) : e.id = op[2] THEN "ok" ELSE "refused")
    [] n = "setLayer" -> R(SetAt(s, LAMBDA e : e.id = op[2], LAMBDA e : [e EXCEPT !.lay = op[3]]),
                           IF \E e \in ESet(s) : e.id = op[2] THEN "ok" ELSE "refused")
    [] n = "removeMat" -> R(Drop(s, LAMBDA e : e.mat = op[2]), "ok")
    [] n = "removeMats" -> R(Drop(s, LAMBDA e : e.mat \in ToSet(op[2])), "ok")
    [] n = "removeIds" -> R(Drop(s, LAMBDA e : e.id \in ToSet(op[2])), "ok")
    [] n = "setV" -> R([s EXCEPT !.es[op[2]].cs[op[3]] = op[4]], "ok")
    [] n = "copyGroup" -> R(s, "ok")

\* the element kept for each set of vertices is the first one
IndexOf(s) == IF s.kind = "M" THEN {} ELSE LET V(i) == SortNums(Verts(s.es[i]))
                  F == { i \in 1..Len(s.es) : \A j \in 1..(i - 1) : V(j) # V(i) }
              IN { << V(i), s.es[i].id >> : i \in F }
EResOK(s, op, res, same(_, _)) ==
  IF op[1] = "index" THEN ToSet(res) = IndexOf(s) /\ Len(res) = Cardinality(IndexOf(s))
  ELSE IF op[1] = "closest" THEN
     IF RVerts(s) = {} THEN res = 0 ELSE res \in RVerts(s) /\ \A k \in RVerts(s) : Dist(res, op[2]) <= Dist(k, op[2])
  ELSE same(EStep(s, op).res, res)
\* everything a collection answers about itself
Obs(s) ==
  [list |-> [i \in 1..Len(s.es) |-> Desc(s.es[i])],
   mat |-> [k \in 1..4 |-> Sel(s, LAMBDA e : e.mat = k - 1)],
   lay |-> [k \in 1..4 |-> Sel(s, LAMBDA e : e.lay = k - 1)],
   both |-> [k \in 1..16 |-> Sel(s, LAMBDA e : e.mat = (k - 1) \div 4 /\ e.lay = (k - 1) % 4)],
   coord |-> [k \in 1..13 |-> IF s.kind = "M" THEN <<>> ELSE Sel(s, LAMBDA e : (k - 1) \in ToSet(e.cs))],
   sep |-> LET L == SetToSortSeq({ e.lay : e \in ESet(s) }, <) IN [i \in 1..Len(L) |-> << L[i], Sel(s, LAMBDA e : e.lay = L[i]) >>],
   bound |-> IF s.es = <<>> THEN <<"infinite">> ELSE Bound(s)]

EInv(s) == \A i, j \in 1..Len(s.es) : i # j => s.es[i].id # s.es[j].id
(* Layers partition the elements; an edition touches only what it addresses. *)
ETrans(s, op, t) ==
  LET o == Obs(t) IN
  /\ LET all == FlattenSeq([i \in 1..Len(o.sep) |-> o.sep[i][2]]) IN
     /\ Len(all) = Len(t.es) /\ ToSet(all) = ToSet(IdsOfE(t.es))
  /\ \A e \in ESet(s), f \in ESet(t) : e.id = f.id /\ op[1] \notin {"setV"} => e.cs = f.cs /\ e.ty = f.ty
  /\ op[1] \in {"setModel", "setLayer"} => \A i \in 1..Len(s.es) : s.es[i].id # op[2] => t.es[i] = s.es[i]
  /\ op[1] \in {"removeMat", "removeMats", "removeIds"} => \A f \in ESet(t) : f \in ESet(s)
=============================================================================
