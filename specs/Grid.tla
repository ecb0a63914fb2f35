-------------------------------- MODULE Grid --------------------------------
(* A rectilinear grid: per axis the increasing sequence of its lines, in     *)
(* units of 1/128.  Cell sizes are 64, 128 or 256 units, so every fraction   *)
(* of a cell is an exact number of 1/512ths.  Two positions closer than a    *)
(* percentage (the tolerance) of a neighbouring cell may be identified; they *)
(* are whenever neither is the origin.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
GInit == [set |-> FALSE, pos |-> << <<0, 128>>, <<0, 128>>, <<0, 128>> >>]
NC(q) == Len(q) - 1
Steps(q) == [i \in 1..NC(q) |-> q[i + 1] - q[i]]
Line(q, c) == q[c + 1]                        \* cells and lines count from 0
Abs(n) == IF n < 0 THEN -n ELSE n
\* the cells next to line i (1-based)
Adj(q, i) == { q[j + 1] - q[j] : j \in { k \in {i - 1, i} : k >= 1 /\ k <= NC(q) } }
MaySnap(q, i, x, tol) == \E w \in Adj(q, i) : 100 * Abs(x - q[i]) <= tol * w
MustSnap(q, i, x, tol) == x = q[i] \/ (x # 0 /\ q[i] # 0 /\ \A w \in Adj(q, i) : 100 * Abs(x - q[i]) < tol * w)
Frac(d, w) == (d * 512) \div w                \* exact: w divides 512 d
Nat_(q, x) == CHOOSE i \in 1..NC(q) : q[i] <= x /\ x < q[i + 1]
\* every answer <<cell, distance, outside>> allowed for a coordinate
Located(q, x, approx, tol) ==
  LET snaps == { << i - 1, 0, FALSE >> : i \in { j \in 1..Len(q) : MaySnap(q, j, x, tol) } }
      must == \E i \in 1..Len(q) : MustSnap(q, i, x, tol)
      plain == IF x < q[1] THEN { << 0, Frac(x - q[1], q[2] - q[1]), TRUE >> }
               ELSE IF x >= q[Len(q)] THEN { << NC(q), Frac(x - q[Len(q)], q[Len(q)] - q[NC(q)]), TRUE >> }
               ELSE LET i == Nat_(q, x)  f == Frac(x - q[i], q[i + 1] - q[i])
                    IN IF ~approx \/ f < 256 THEN { << i - 1, f, FALSE >> }
                       ELSE IF f > 256 THEN { << i, f - 512, FALSE >> }
                       ELSE { << i - 1, f, FALSE >>, << i, f - 512, FALSE >> }
  IN IF must THEN snaps ELSE snaps \cup plain
InR(q, x) == q[1] <= x /\ x <= q[Len(q)]
\* the lines of an axis in a closed range, up to the tolerance
InRange(q, a, b, i) == a <= q[i] /\ q[i] <= b
RangeOK(q, a, b, got) ==
  /\ \A k \in 1..Len(got) : \E i \in 1..Len(q) : q[i] = got[k] /\ (InRange(q, a, b, i) \/ MaySnap(q, i, a, 1) \/ MaySnap(q, i, b, 1))
  /\ \A k \in 1..(Len(got) - 1) : got[k] < got[k + 1]
  /\ \A i \in 1..Len(q) : InRange(q, a, b, i) \/ MustSnap(q, i, a, 1) \/ MustSnap(q, i, b, 1) => q[i] \in ToSet(got)
MidPts(q) == [i \in 1..(Len(q) - 1) |-> q[i] + q[i + 1]]     \* in half units
Prod(a, b, c) == FlattenSeq([i \in 1..Len(a) |-> FlattenSeq([j \in 1..Len(b) |-> [k \in 1..Len(c) |-> << a[i], b[j], c[k] >>]])])
Corner(s, c) == [d \in 1..3 |-> Line(s.pos[d], c[d])]
MinN(X) == CHOOSE m \in X : \A x \in X : m <= x
AllSteps(s) == UNION { ToSet(Steps(s.pos[d])) : d \in 1..3 }
Obs(s) ==
  [n |-> [d \in 1..3 |-> NC(s.pos[d])], origin |-> [d \in 1..3 |-> s.pos[d][1]], pos |-> s.pos,
   steps |-> [d \in 1..3 |-> Steps(s.pos[d])], min |-> MinN(AllSteps(s)),
   reg |-> [d \in 1..3 |-> Cardinality(ToSet(Steps(s.pos[d]))) = 1],
   regAll |-> \A d \in 1..3 : Cardinality(ToSet(Steps(s.pos[d]))) = 1,
   cart |-> Cardinality(AllSteps(s)) = 1,
   box |-> << [d \in 1..3 |-> s.pos[d][1]], [d \in 1..3 |-> s.pos[d][Len(s.pos[d])]] >>,
   cells |-> << <<0, 0, 0>>, [d \in 1..3 |-> NC(s.pos[d])] >>,
   all |-> Prod(s.pos[1], s.pos[2], s.pos[3]), zero |-> FALSE]
Sums(a, w) == [i \in 1..Len(w) |-> a + FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(w, 1, i))]
Sub(a, w) == Reverse([i \in 1..Len(w) |-> a - FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(w, 1, i))])
GStep(s, op) ==
  LET n == op[1]  t(p) == [st |-> [set |-> TRUE, pos |-> p], res |-> "ok"]  q(r) == [st |-> s, res |-> r] IN
  CASE n \in {"setPos", "ctor"} -> t(op[2])
    [] n = "box" -> t([d \in 1..3 |-> LET len == op[3][d] - op[2][d]  w == op[4][d]  k == (len + w - 1) \div w
                                     IN [i \in 1..(k + 1) |-> op[2][d] + (i - 1) * w]])
    [] n = "dims" -> t([d \in 1..3 |-> LET w == (op[3][d] - op[2][d]) \div op[4][d] IN [i \in 1..(op[4][d] + 1) |-> op[2][d] + (i - 1) * w]])
    [] n \in {"copy", "assign"} -> t(s.pos)
    [] n = "scale" -> t([d \in 1..3 |-> [i \in 1..Len(s.pos[d]) |-> (s.pos[d][i] * op[2]) \div op[3]]])
    [] n = "extra" -> t([s.pos EXCEPT ![op[2] + 1] = IF op[3] = 1 THEN @ \o Sums(@[Len(@)], op[4]) ELSE Sub(@[1], op[4]) \o @])
    [] n = "into" -> q(\A d \in 1..3 : InR(s.pos[d], op[2][d]))
    [] n = "into1" -> q(InR(s.pos[op[2] + 1], op[3]))
    [] n = "natural" -> q(LET p == s.pos[op[2] + 1]  x == op[3] IN
          IF x < p[1] THEN << FALSE, 0 >> ELSE IF x >= p[Len(p)] THEN << FALSE, NC(p) >>
          ELSE LET i == Nat_(p, x) IN << TRUE, i - 1, Frac(x - p[i], p[i + 1] - p[i]) >>)
    [] n = "frac" -> q(IF \A d \in 1..3 : InR(s.pos[d], op[2][d])
          THEN LET c(d) == LET p == s.pos[d] IN IF op[2][d] = p[Len(p)] THEN Len(p) ELSE Nat_(p, op[2][d]) IN
               << TRUE, [d \in 1..3 |-> c(d) - 1],
                  [d \in 1..3 |-> IF c(d) = Len(s.pos[d]) THEN 0 ELSE Frac(op[2][d] - s.pos[d][c(d)], s.pos[d][c(d) + 1] - s.pos[d][c(d)])] >>
          ELSE << FALSE >>)
    [] n = "posOf" -> q(Corner(s, op[2]))
    [] n = "boxOf" -> q(<< Corner(s, op[2]), Corner(s, op[3]) >>)
    [] OTHER -> q("relation")
\* whether cells of these sizes are all of one size: sure when every two differ
\* by less than 1% of the smallest, impossible when some differ by over 2%
Same1(X) == LET lo == MinN(X)  hi == -MinN({ -x : x \in X }) IN
  [must |-> 100 * (hi - lo) < lo, may |-> 50 * (hi - lo) <= hi]
Open(v, sm, same(_, _)) == (same(v, TRUE) /\ sm.may) \/ (same(v, FALSE) /\ ~sm.must)
\* the answers that the tolerance leaves open
GResOK(s, op, res, same(_, _)) ==
  LET n == op[1] IN
  CASE n = "cell" -> \E r \in Located(s.pos[op[2] + 1], op[3], op[4], op[5]) : same(r, res)
    [] n = "cell3" -> \E a \in Located(s.pos[1], op[2][1], op[3], 1), b \in Located(s.pos[2], op[2][2], op[3], 1), c \in Located(s.pos[3], op[2][3], op[3], 1) :
          same(<< << a[1], b[1], c[1] >>, << a[2], b[2], c[2] >>, a[3] \/ b[3] \/ c[3] >>, res)
    [] n = "isCell" -> LET may == \A d \in 1..3 : \E i \in 1..Len(s.pos[d]) : MaySnap(s.pos[d], i, op[2][d], 1)
                           must == \A d \in 1..3 : \E i \in 1..Len(s.pos[d]) : MustSnap(s.pos[d], i, op[2][d], 1)
                       IN (same(res, TRUE) /\ may) \/ (same(res, FALSE) /\ ~must)
    [] n = "regular" -> \* a grid with cells of the given sizes: regular per axis, regular, cartesian, smallest
          LET X == [d \in 1..3 |-> ToSet(op[2][d])] IN
          /\ \A d \in 1..3 : Open(res[1][d], Same1(X[d]), same)
          /\ same(res[2], \A d \in 1..3 : same(res[1][d], TRUE))
          /\ Open(res[3], Same1(UNION { X[d] : d \in 1..3 }), same)
          /\ same(res[4], MinN(UNION { X[d] : d \in 1..3 }))
    [] n = "range" -> RangeOK(s.pos[op[2] + 1], op[3], op[4], res)
    [] n = "centers" -> \* the centres of the cells between the lines in range, in half units
          /\ \A d \in 1..3 : RangeOK(s.pos[d], op[2][d], op[3][d], res[1][d])
          /\ same(res[2], Prod(MidPts(res[1][1]), MidPts(res[1][2]), MidPts(res[1][3])))
    [] n = "around" -> \* the cell containing a point, as a box of cells and as a region
          LET lo == res[1][1] IN
          /\ \A d \in 1..3 : \E r \in Located(s.pos[d], op[2][d], FALSE, 1) : r[1] = lo[d] /\ lo[d] < NC(s.pos[d])
          /\ same(res, << << lo, [d \in 1..3 |-> lo[d] + 1] >>, << Corner(s, lo), Corner(s, [d \in 1..3 |-> lo[d] + 1]) >> >>)
    [] OTHER -> same(GStep(s, op).res, res)
GInv(s) == \A d \in 1..3 : Len(s.pos[d]) >= 2 /\ \A i \in 1..NC(s.pos[d]) : s.pos[d][i] < s.pos[d][i + 1]
(* A located coordinate is recovered from its cell: line + fraction of cell, *)
(* up to the tolerance; an index is located at its own line.                 *)
GTrans(s, op, t) ==
  /\ op[1] = "cell" => LET q == s.pos[op[2] + 1]  L == Located(q, op[3], op[4], op[5]) IN
       /\ L # {}
       /\ \A r \in L : LET w == IF r[1] = NC(q) \/ (r[2] < 0 /\ r[1] > 0) THEN q[r[1] + 1] - q[r[1]] ELSE q[r[1] + 2] - q[r[1] + 1]
                       IN IF r[2] = 0 THEN \E v \in Adj(q, r[1] + 1) : 100 * Abs(q[r[1] + 1] - op[3]) <= op[5] * v
                          ELSE (op[3] - q[r[1] + 1]) * 512 = r[2] * w
       /\ \A r \in L : r[3] = FALSE => r[1] \in 0..NC(q)
  /\ \A d \in 1..3 : \A c \in 0..NC(t.pos[d]) : Located(t.pos[d], Line(t.pos[d], c), TRUE, 1) = { << c, 0, FALSE >> }
  /\ op[1] = "extra" => \A d \in 1..3 : ToSet(s.pos[d]) \subseteq ToSet(t.pos[d])
=============================================================================
