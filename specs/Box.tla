--------------------------------- MODULE Box ---------------------------------
(* Two axis-aligned boxes A and B; a box is the set of points between its    *)
(* corners lo and hi (both included); before any point it is empty.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
None == [lo |-> <<>>, hi |-> <<>>]
BInit == [kind |-> "none", A |-> None, B |-> None]
Empty(b) == b.lo = <<>>
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Mk(p, q) == [lo |-> [d \in 1..3 |-> Mn(p[d], q[d])], hi |-> [d \in 1..3 |-> Mx(p[d], q[d])]]
Join(a, b) == IF Empty(a) THEN b ELSE IF Empty(b) THEN a ELSE
              [lo |-> [d \in 1..3 |-> Mn(a.lo[d], b.lo[d])], hi |-> [d \in 1..3 |-> Mx(a.hi[d], b.hi[d])]]
Len_(b, d) == b.hi[d] - b.lo[d]
Dim(b) == Cardinality({ d \in 1..3 : Len_(b, d) # 0 })
Corner(b, c) == [d \in 1..3 |-> IF c[d] = 0 THEN b.lo[d] ELSE b.hi[d]]
\* the vertices in the order an element of the box is numbered
Axes(b) == { d \in 1..3 : Len_(b, d) # 0 }
Around(b, u, v) == LET P(x, y) == [d \in 1..3 |-> IF (d = u /\ x = 1) \/ (d = v /\ y = 1) THEN b.hi[d] ELSE b.lo[d]] IN << P(0, 0), P(1, 0), P(1, 1), P(0, 1) >>
Pos(b) == CASE Dim(b) = 0 -> << b.lo >>
            [] Dim(b) = 1 -> << b.lo, b.hi >>
            [] Dim(b) = 2 -> LET n == CHOOSE d \in 1..3 : Len_(b, d) = 0 IN Around(b, (n % 3) + 1, ((n + 1) % 3) + 1)
            [] OTHER -> Around(b, 1, 2) \o [i \in 1..4 |-> [Around(b, 1, 2)[i] EXCEPT ![3] = b.hi[3]]]
Face(b, d, u) == LET f == [b EXCEPT !.lo[d] = IF u = 1 THEN b.hi[d] ELSE b.lo[d], !.hi[d] = IF u = 1 THEN b.hi[d] ELSE b.lo[d]] IN f
FacePos(b, d, u) == LET f == Face(b, d, u)  y == (d % 3) + 1  z == ((d + 1) % 3) + 1 IN Around(f, z, y)
Meet(a, b) == ~Empty(a) /\ ~Empty(b) /\ \A d \in 1..3 : a.lo[d] <= b.hi[d] /\ b.lo[d] <= a.hi[d]
Inter(a, b) == [lo |-> [d \in 1..3 |-> Mx(a.lo[d], b.lo[d])], hi |-> [d \in 1..3 |-> Mn(a.hi[d], b.hi[d])]]
In(p, b) == \A d \in 1..3 : b.lo[d] <= p[d] /\ p[d] <= b.hi[d]
\* cutting a box at planes: per axis, the cuts strictly between its faces
Cuts(b, d, X) == SetToSortSeq({ b.lo[d], b.hi[d] } \cup { x \in X : b.lo[d] < x /\ x < b.hi[d] }, <)
Segs(b, d, X) == LET c == Cuts(b, d, X) IN IF Len(c) = 1 THEN { << c[1], c[1] >> } ELSE { << c[i], c[i + 1] >> : i \in 1..(Len(c) - 1) }
Pieces(b, X) == { << << u[1], v[1], w[1] >>, << u[2], v[2], w[2] >> >> : u \in Segs(b, 1, X[1]), v \in Segs(b, 2, X[2]), w \in Segs(b, 3, X[3]) }
Multiples(w, a, b) == { k * w : k \in (0 - Mx(0 - a, 0))..Mx(b, 0) }
Bx(b) == << b.lo, b.hi >>
Reg(s, r) == IF r = "A" THEN s.A ELSE s.B
Put(s, r, b) == IF r = "A" THEN [s EXCEPT !.A = b] ELSE [s EXCEPT !.B = b]
R(t, r) == [st |-> t, res |-> r]
BStep(s, op) ==
  LET n == op[1]  a == s.A  b == s.B IN
  CASE n = "kind" -> R([BInit EXCEPT !.kind = op[2]], "ok")
    [] n \in {"set", "ctor", "pair"} -> R(Put(s, op[2], Mk(op[3], op[4])), "ok")
    [] n = "empty" -> R(Put(s, op[2], None), "ok")
    [] n = "point" -> R(Put(s, op[2], Join(Reg(s, op[2]), Mk(op[3], op[3]))), "ok")
    [] n \in {"join", "extend"} -> R([s EXCEPT !.A = Join(a, b)], "ok")
    [] n = "assign" -> R([s EXCEPT !.A = b], "ok")
    [] n = "scale" -> R(IF s.kind = "R" /\ ~Empty(a) THEN [s EXCEPT !.A = Mk([d \in 1..3 |-> a.lo[d] * op[2]], [d \in 1..3 |-> a.hi[d] * op[2]])] ELSE s, "ok")
    [] n = "rel" -> R(s, << \A d \in 1..3 : a.lo[d] < b.lo[d] /\ b.hi[d] < a.hi[d],       \* A > B: B in the interior of A
                            \A d \in 1..3 : b.lo[d] < a.lo[d] /\ a.hi[d] < b.hi[d],       \* A < B
                            \A d \in 1..3 : b.lo[d] <= a.lo[d] /\ a.hi[d] <= b.hi[d],     \* A <= B
                            a = b, Meet(a, b), Meet(a, b) >>)
    [] n = "inter" -> R(s, Bx(Inter(a, b)))
    [] n = "inside" -> R(s, In(op[2], a))
    [] n = "pos" -> R(s, Pos(a))
    [] n = "axis" -> R(s, << IF Dim(a) = 1 THEN (CHOOSE d \in 1..3 : Len_(a, d) # 0) - 1 ELSE "refused",
                             IF Dim(a) = 2 THEN (CHOOSE d \in 1..3 : Len_(a, d) = 0) - 1 ELSE "refused" >>)
    [] n = "face" -> R(s, << FacePos(a, op[2] + 1, op[3]), IF Dim(a) = 3 THEN Bx(Face(a, op[2] + 1, op[3])) ELSE "n/a", IF op[3] = 0 THEN a.lo ELSE a.hi >>)
    [] n = "chopGrid" -> R(s, Pieces(a, [d \in 1..3 |-> ToSet(op[2][d])]))
    [] n = "chop" -> R(s, Pieces(a, [d \in 1..3 |-> IF op[2][d] <= 0 THEN {} ELSE Multiples(op[2][d], a.lo[d], a.hi[d])]))
SetOf(res) == { res[i] : i \in 1..Len(res) }
(* Pieces that tile the box: a grid of cells between its faces.              *)
Tiles(b, res) ==
  LET C(d) == { res[i][1][d] : i \in 1..Len(res) } \cup { res[i][2][d] : i \in 1..Len(res) } IN
  /\ \A d \in 1..3 : { b.lo[d], b.hi[d] } \subseteq C(d) /\ \A x \in C(d) : b.lo[d] <= x /\ x <= b.hi[d]
  /\ SetOf(res) = Pieces(b, [d \in 1..3 |-> C(d)]) /\ Len(res) = Cardinality(SetOf(res))
BResOK(s, op, res, same(_, _)) ==
  IF op[1] = "chopGrid" THEN SetOf(res) = BStep(s, op).res /\ Len(res) = Cardinality(SetOf(res))
  ELSE IF op[1] = "chop" THEN
     \* an axis shorter than the step, or with no step, may be cut anywhere
     /\ Tiles(s.A, res)
     /\ \A d \in 1..3 : 0 < op[2][d] /\ op[2][d] <= Len_(s.A, d) =>
          { res[i][1][d] : i \in 1..Len(res) } = { p[1][d] : p \in BStep(s, op).res }
  ELSE same(BStep(s, op).res, res)
Desc(b) == IF Empty(b) THEN "empty" ELSE << b.lo, b.hi, Dim(b), [d \in 1..3 |-> Len_(b, d)] >>
Obs(s) == << Desc(s.A), Desc(s.B) >>
BInv(s) == \A b \in {s.A, s.B} : ~Empty(b) => \A d \in 1..3 : b.lo[d] <= b.hi[d]
BTrans(s, op, t) ==
  /\ op[1] \in {"join", "extend"} /\ ~Empty(t.A) =>
       /\ ~Empty(s.A) => In(s.A.lo, t.A) /\ In(s.A.hi, t.A)
       /\ ~Empty(s.B) => In(s.B.lo, t.A) /\ In(s.B.hi, t.A)
       /\ \A d \in 1..3 : t.A.lo[d] \in { b.lo[d] : b \in {s.A, s.B} \ {None} }
  /\ op[1] = "inter" => In(Inter(s.A, s.B).lo, s.A) /\ In(Inter(s.A, s.B).hi, s.B)
  /\ op[1] \in {"chop", "chopGrid"} => LET r == BStep(s, op).res IN
       /\ Tiles(s.A, SetToSeq(r))
       /\ \A p, q \in r : p # q => \E d \in 1..3 : p[2][d] <= q[1][d] \/ q[2][d] <= p[1][d]
  /\ op[1] = "face" => \A i \in 1..4 : In(FacePos(s.A, op[2] + 1, op[3])[i], s.A)
  /\ op[1] = "pos" => Len(Pos(s.A)) = 2 ^ Dim(s.A) /\ Cardinality(SetOf(Pos(s.A))) = 2 ^ Dim(s.A)
=============================================================================
