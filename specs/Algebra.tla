------------------------------- MODULE Algebra ------------------------------
(* Integer vector and matrix algebra (src/core/math/vector, matrix).  The    *)
(* state is three matrix registers [r rows, c columns, v sequence of rows];  *)
(* every operation is carried out by the implementation on dynamic matrices  *)
(* of integers and of reals (and, for "static", on matrices of fixed size),  *)
(* which must agree with each other and with the values derived here.        *)
(* Vectors and fractional grid positions are values: an operation on them    *)
(* shows its result and what became of its operands.                         *)
EXTENDS Integers, Sequences, FiniteSets, Json
MR == 3
Mx(r, c, f(_, _)) == [r |-> r, c |-> c, v |-> [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]]
Rows(rs) == [r |-> Len(rs), c |-> IF rs = <<>> THEN 0 ELSE Len(rs[1]), v |-> rs]
A0 == Rows(<<>>)
AInit == [i \in 1..MR |-> A0]
RECURSIVE Sum(_, _, _)
Sum(a, b, f) == IF a > b THEN 0 ELSE f[a] + Sum(a + 1, b, f)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
B2I(b) == IF b THEN 1 ELSE 0
T(m) == Mx(m.c, m.r, LAMBDA i, j : m.v[j][i])
Add(a, b) == Mx(a.r, a.c, LAMBDA i, j : a.v[i][j] + b.v[i][j])
Sub(a, b) == Mx(a.r, a.c, LAMBDA i, j : a.v[i][j] - b.v[i][j])
Mul(a, b) == Mx(a.r, b.c, LAMBDA i, j : LET g == [k \in 1..a.c |-> a.v[i][k] * b.v[k][j]] IN Sum(1, a.c, g))
Scale(a, k) == Mx(a.r, a.c, LAMBDA i, j : a.v[i][j] * k)
Plus(a, k) == Mx(a.r, a.c, LAMBDA i, j : a.v[i][j] + k)
Exact(x, k) == x % Abs(k) = 0
Quo(x, k) == (x \div Abs(k)) * (IF k < 0 THEN -1 ELSE 1)
Div(a, k) == Mx(a.r, a.c, LAMBDA i, j : Quo(a.v[i][j], k))
Kron(a, b) == Mx(a.r * b.r, a.c * b.c, LAMBDA i, j : a.v[((i - 1) \div b.r) + 1][((j - 1) \div b.c) + 1] * b.v[((i - 1) % b.r) + 1][((j - 1) % b.c) + 1])
Block(a, i0, i1, j0, j1) == Mx(i1 - i0 + 1, j1 - j0 + 1, LAMBDA i, j : a.v[i0 + i][j0 + j])      \* 0-based, inclusive
Reshape(a, r, c, o) == Mx(r, c, LAMBDA i, j : LET k == (i - 1) * c + (j - 1) IN
   IF o = 1 THEN a.v[(k \div a.c) + 1][(k % a.c) + 1] ELSE a.v[(k % a.r) + 1][(k \div a.r) + 1])
Elim(a, f, l) == Mx(a.r, a.c - (l - f + 1), LAMBDA i, j : a.v[i][IF j <= f THEN j ELSE j + (l - f + 1)])
Eye(n) == Mx(n, n, LAMBDA i, j : B2I(i = j))
(* lexicographic order of rows restricted to columns f..l (1-based) *)
RECURSIVE Lex(_, _, _, _)
Lex(x, y, f, l) == IF f > l THEN FALSE ELSE IF x[f] # y[f] THEN x[f] < y[f] ELSE Lex(x, y, f + 1, l)
SortedBy(rs, f, l) == \A i \in 1..Len(rs) - 1 : ~Lex(rs[i + 1], rs[i], f, l)
RECURSIVE InsertRow(_, _, _, _)
InsertRow(x, s, f, l) == IF s = <<>> THEN << x >> ELSE IF Lex(x, s[1], f, l) THEN << x >> \o s ELSE << s[1] >> \o InsertRow(x, Tail(s), f, l)
RECURSIVE SortRows(_, _, _)
SortRows(rs, f, l) == IF rs = <<>> THEN <<>> ELSE LET n == Len(rs) IN InsertRow(rs[n], SortRows(SubSeq(rs, 1, n - 1), f, l), f, l)
RECURSIVE Uniq(_)
Uniq(rs) == IF Len(rs) <= 1 THEN rs ELSE IF rs[1] = rs[2] THEN Uniq(Tail(rs)) ELSE << rs[1] >> \o Uniq(Tail(rs))
Count(x, rs) == Cardinality({ i \in 1..Len(rs) : rs[i] = x })
Permutes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)
(* determinant by cofactors, inverse of a unimodular matrix by the adjugate *)
Minor(a, p, q) == Mx(a.r - 1, a.c - 1, LAMBDA i, j : a.v[IF i < p THEN i ELSE i + 1][IF j < q THEN j ELSE j + 1])
RECURSIVE Det(_)
Det(a) == IF a.r = 0 THEN 1 ELSE IF a.r = 1 THEN a.v[1][1] ELSE
  LET g == [j \in 1..a.c |-> IF a.v[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * a.v[1][j] * Det(Minor(a, 1, j))] IN Sum(1, a.c, g)
Inverse(a) == LET d == Det(a) IN Mx(a.r, a.r, LAMBDA i, j : (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(a, j, i)) * d)
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
Cells(a) == { a.v[i][j] : i \in 1..a.r, j \in 1..a.c }
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE rs[1] \o Flat(Tail(rs))
Symmetric(a) == a.r = a.c /\ a = T(a)
MLess(a, b) == Lex(Flat(a.v), Flat(b.v), 1, a.r * a.c)
Conv(a, b) == Mx(a.r + b.r - 1, 1, LAMBDA n, j : LET g == [i \in 1..a.r |-> IF n - i + 1 >= 1 /\ n - i + 1 <= b.r THEN a.v[i][1] * b.v[n - i + 1][1] ELSE 0] IN Sum(1, a.r, g))
Show(m) == << m.r, m.c, m.v >>
AObs(st) == [i \in 1..MR |-> Show(st[i])]
Set(st, r, m) == [st |-> [st EXCEPT ![r] = m], res |-> "ok"]
Same0(st, x) == [st |-> st, res |-> x]
(* matrices of fixed size *)
FixedMx(n, a, b, k) ==
  CASE n = "mul" \/ n = "muldyn" -> Show(Mul(a, b)) [] n = "add" \/ n = "iadd" -> Show(Add(a, b)) [] n = "isub" -> Show(Sub(a, b))
    [] n = "muls" \/ n = "imuls" -> Show(Scale(a, k)) [] n = "idivs" -> Show(Div(a, k)) [] n = "iadds" -> Show(Plus(a, k)) [] n = "t" -> Show(T(a))
    [] n = "inv" -> (IF Det(a) = 0 THEN "refused" ELSE Show(Inverse(a))) [] n = "copy" -> Show(a) [] n = "eye" -> Show(Eye(a.r)) [] n = "zeros" -> Show(Mx(a.r, a.c, LAMBDA i, j : 0))
    [] n = "det" -> Det(a) [] n = "eq" -> << B2I(a = b), B2I(MLess(a, b)), B2I(MLess(b, a)) >> [] n = "vec" -> (Mul(a, T(Rows(<< b.v[1] >>)))).v
    [] n = "diag" -> Show(Mx(a.r, a.r, LAMBDA i, j : IF i = j THEN b.v[1][i] ELSE a.v[i][j])) [] n = "max" -> Max(Cells(a))
    [] n = "arr" -> << Flat(T(a).v), Flat(a.v) >> [] n = "sym" -> << B2I(a.r = a.c), B2I(Symmetric(a)) >>
(* vectors *)
Vm(u, f(_)) == [i \in 1..Len(u) |-> f(i)]
Dot(u, w) == LET g == [i \in 1..Len(u) |-> u[i] * w[i]] IN Sum(1, Len(u), g)
Cross(u, w) == << u[2] * w[3] - u[3] * w[2], u[3] * w[1] - u[1] * w[3], u[1] * w[2] - u[2] * w[1] >>
NonZero(u) == { i \in 1..Len(u) : u[i] # 0 }
VLess(u, w) == Lex(u, w, 1, Len(u))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Text(_, _)
Text(u, i) == IF i = Len(u) THEN ToJson(u[i]) ELSE ToJson(u[i]) \o " , " \o Text(u, i + 1)
VecRes(n, u, w, k) ==
  CASE n = "add" -> Vm(u, LAMBDA i : u[i] + w[i]) [] n = "sub" -> Vm(u, LAMBDA i : u[i] - w[i]) [] n = "mulv" -> Vm(u, LAMBDA i : u[i] * w[i])
    [] n = "adds" -> Vm(u, LAMBDA i : u[i] + k) [] n = "subs" -> Vm(u, LAMBDA i : u[i] - k) [] n = "muls" -> Vm(u, LAMBDA i : u[i] * k) [] n = "divs" -> Vm(u, LAMBDA i : Quo(u[i], k))
    [] n = "neg" -> Vm(u, LAMBDA i : 0 - u[i]) [] n = "rsub" -> Vm(u, LAMBDA i : k - u[i]) [] n = "cross" -> Cross(u, w) [] n = "dot" -> Dot(u, w)
    [] n = "max" -> Max({ u[i] : i \in 1..Len(u) }) [] n = "min" -> Vm(u, LAMBDA i : IF u[i] < w[i] THEN u[i] ELSE w[i]) [] n = "abs" -> Vm(u, LAMBDA i : Abs(u[i]))
    [] n = "order" -> << B2I(u = w), B2I(u # w), B2I(VLess(u, w)), B2I(~VLess(w, u)), B2I(VLess(w, u)), B2I(~VLess(u, w)) >>
    [] n = "norm" -> Dot(u, u) [] n = "unit" -> u [] n = "perm" -> Vm(u, LAMBDA i : u[((i - 1 - k) % Len(u)) + 1]) [] n = "bin" -> Vm(u, LAMBDA i : (k \div Pow2(Len(u) - i)) % 2)
    [] n = "axis" -> (IF Cardinality(NonZero(u)) # 1 THEN <<0>> ELSE << 1, (CHOOSE i \in NonZero(u) : TRUE) - 1 >>)
    [] n = "planes" -> << B2I(u[3] = 0), B2I(u[1] = 0), B2I(u[2] = 0), B2I(Cardinality(NonZero(u)) < 3), B2I(\E i \in 1..3 : u[i] = w[i]) >>
    [] n = "set" -> Vm(u, LAMBDA i : k) [] n = "conv" -> u [] n = "text" -> "(" \o Text(u, 1) \o ")"
(* fractional positions: an integer cell and a fraction of it in eighths *)
Frac(p, l) == << p, l >>
Range(l) == Cardinality({ i \in 1..3 : l[i] > 0 })
DirBase(l) == CASE Range(l) = 1 -> (CHOOSE i \in 1..3 : l[i] > 0) [] Range(l) = 2 -> (CHOOSE i \in 1..3 : l[i] = 0) [] OTHER -> 0
Near(x) == IF x > 4 THEN 8 ELSE 0
Carry(f) == << [i \in 1..3 |-> f[1][i] + (IF f[2][i] = 8 THEN 1 ELSE 0)], [i \in 1..3 |-> IF f[2][i] = 8 THEN 0 ELSE f[2][i]] >>
Snap(f) == LET l == f[2]  s == { i \in 1..3 : l[i] # 0 }  d(i) == Abs(Near(l[i]) - l[i]) IN
  IF s = {} THEN f ELSE LET m == CHOOSE i \in s : \A j \in s : d(i) < d(j) \/ (d(i) = d(j) /\ i <= j) IN Carry(<< f[1], [l EXCEPT ![m] = Near(l[m])] >>)
RECURSIVE SnapTo(_, _, _)
SnapTo(f, n, k) == IF k = 0 \/ Range(f[2]) <= n THEN f ELSE SnapTo(Snap(f), n, k - 1)
FracRes(n, f, g, k) ==
  CASE n = "base" -> << Range(f[2]), DirBase(f[2]) >>
    [] n = "scale" -> << [i \in 1..3 |-> 8 * f[1][i] + f[2][i]], [i \in 1..3 |-> 8 * (f[1][i] - g[1][i]) + f[2][i]] >>
    [] n = "mean" -> [i \in 1..3 |-> f[2][i] + g[2][i]]            \* in sixteenths
    [] n = "near" -> [i \in 1..3 |-> Near(f[2][i])] [] n = "eq" -> << B2I(f = g) >>
    [] n = "carry" -> << Carry(f), g >> [] n = "snap" -> << Snap(f), g >> [] n = "snapto" -> << SnapTo(f, k, 3), g >>
    [] n = "join" -> LET z == [i \in 1..3 |-> IF f[2][i] = 0 THEN 0 ELSE g[2][i]] IN << << f[1], z >>, << g[1], z >> >>
    [] n = "move" -> LET ok == \A i \in 1..3 : f[2][i] # 0 => g[2][i] # 0 IN
         << f, IF ok \/ k = 1 THEN << g[1], [i \in 1..3 |-> IF g[2][i] = 0 THEN 0 ELSE f[2][i]] >> ELSE g, B2I(ok) >>
AStep(st, op) ==
  LET n == op[1]  r == op[2]  a == IF Len(op) >= 3 /\ n \notin {"mat", "vec", "frac", "fixed"} THEN op[3] ELSE 0 IN
  CASE n = "mat" -> Set(st, r, Rows(op[4]))
    [] n = "col" -> Set(st, r, Mx(Len(a), 1, LAMBDA i, j : a[i]))
    [] n = "fill" -> Set(st, r, Mx(st[r].r, st[r].c, LAMBDA i, j : a))
    [] n = "zeros" -> Set(st, r, Mx(st[r].r, st[r].c, LAMBDA i, j : 0))
    [] n = "eye" -> Set(st, r, Eye(st[r].r))
    [] n = "t" -> Set(st, r, T(st[r]))
    [] n = "cell" -> Set(st, r, [st[r] EXCEPT !.v[a + 1][op[4] + 1] = op[5]])
    [] n \in {"assign", "clone"} -> Set(st, r, st[a])
    [] n = "add" -> Set(st, r, Add(st[a], st[op[4]]))
    [] n = "mul" -> Set(st, r, Mul(st[a], st[op[4]]))
    [] n = "muls" -> Set(st, r, Scale(st[a], op[4]))
    [] n = "divs" -> Set(st, r, Div(st[a], op[4]))
    [] n = "iadds" -> Set(st, r, Plus(st[r], a))
    [] n = "iadd" -> Set(st, r, Add(st[r], st[a]))
    [] n = "imuls" -> Set(st, r, Scale(st[r], a))
    [] n = "idivs" -> Set(st, r, Div(st[r], a))
    [] n = "kron" -> Set(st, r, Kron(st[a], st[op[4]]))
    [] n = "sub" -> Set(st, r, Block(st[a], op[4], op[5], op[6], op[7]))
    [] n = "block" -> Set(st, r, Block(st[a], op[4], op[5] - 1, op[6], op[7] - 1))
    [] n = "reshape" -> Set(st, r, Reshape(st[a], op[4], op[5], op[6]))
    [] n = "elim" -> Set(st, r, Elim(st[a], op[4], op[5]))
    [] n = "conv" -> Set(st, r, Conv(st[a], st[op[4]]))
    [] n = "sort" -> Set(st, r, [st[r] EXCEPT !.v = SortRows(st[r].v, 1, st[r].c)])
    [] n = "uniq" -> Set(st, r, Rows(Uniq(SortRows(st[r].v, 1, st[r].c))))
    [] n = "uniqsorted" -> Set(st, r, Rows(Uniq(st[r].v)))
    [] n = "merge" -> Set(st, r, Rows(SortRows(st[r].v \o st[a].v, 1, st[r].c)))
    [] n = "inv" -> IF Det(st[a]) = 0 THEN Same0(st, "refused") ELSE Set(st, r, Inverse(st[a]))
    [] n = "lower" -> Set(st, r, Mx(st[r].r, st[r].c, LAMBDA i, j : IF j > i THEN st[r].v[j][i] ELSE st[r].v[i][j]))
    [] n = "tocol" -> Set(st, r, Mx(st[r].r, st[r].c, LAMBDA i, j : IF j = a + 1 THEN op[4][i] ELSE st[r].v[i][j]))
    [] n = "torow" -> Set(st, r, Mx(st[r].r, st[r].c, LAMBDA i, j : IF i = a + 1 THEN op[4][j] ELSE st[r].v[i][j]))
    [] n = "sortby" -> Same0(st, "sorted")       \* a sort by some columns of a copy, judged in AlgebraTrace
    [] n = "find" -> LET s == { i \in 1..st[r].r : SubSeq(st[r].v[i], a + 1, a + Len(op[4])) = op[4] } IN Same0(st, IF s = {} THEN st[r].r ELSE (CHOOSE i \in s : \A j \in s : i <= j) - 1)
    [] n = "max" -> Same0(st, << Max(Cells(st[r])) >> \o [j \in 1..st[r].c |-> Max({ st[r].v[i][j] : i \in 1..st[r].r })])
    [] n = "det" -> Same0(st, Det(st[r]))
    [] n = "row" -> Same0(st, st[r].v[a + 1])
    [] n = "sym" -> Same0(st, << B2I(st[r].r = st[r].c), IF st[r].r = st[r].c THEN B2I(Symmetric(st[r])) ELSE 0 >>)
    [] n = "arr" -> Same0(st, << Flat(T(st[r]).v), Flat(st[r].v) >>)
    [] n = "eq" -> Same0(st, B2I(st[r] = st[a]))
    [] n = "lt" -> Same0(st, << B2I(MLess(st[r], st[a])), B2I(MLess(st[a], st[r])) >>)
    [] n = "cart" -> Same0(st, st[r].v)
    [] n = "fixed" -> Same0(st, FixedMx(r, st[op[3]], st[op[4]], op[5]))
    [] n = "vec" -> Same0(st, << VecRes(r, op[3], op[4], op[5]), IF r \in {"min", "abs", "perm", "bin", "set"} THEN VecRes(r, op[3], op[4], op[5]) ELSE op[3], op[4] >>)
    [] n = "frac" -> Same0(st, FracRes(r, op[3], op[4], op[5]))
(* laws of the algebra itself, on the registers *)
Fits(a, b) == a.r = b.r /\ a.c = b.c
AInv(st) ==
  LET a == st[1]  b == st[2]  c == st[3] IN
  /\ \A i \in 1..MR : LET m == st[i] IN Len(m.v) = m.r /\ (\A k \in 1..m.r : Len(m.v[k]) = m.c) /\ (m.r * m.c > 0 => T(T(m)) = m)
  /\ a.c = b.r /\ a.r * a.c * b.c > 0 => T(Mul(a, b)) = Mul(T(b), T(a))
  /\ a.c = b.r /\ b.c = c.r /\ a.r * a.c * b.c * c.c > 0 => Mul(Mul(a, b), c) = Mul(a, Mul(b, c))
  /\ a.r = a.c /\ b.r = b.c /\ a.r = b.r /\ a.r > 0 => Det(Mul(a, b)) = Det(a) * Det(b)
  /\ a.r = a.c /\ a.r > 0 /\ Abs(Det(a)) = 1 => Mul(a, Inverse(a)) = Eye(a.r)
  /\ a.r * a.c > 0 => SortedBy(SortRows(a.v, 1, a.c), 1, a.c) /\ Permutes(a.v, SortRows(a.v, 1, a.c))
ATrans(s, op, t) == IF op[1] \in {"fixed", "vec", "frac"} THEN t = s ELSE \A i \in 1..MR : op[2] # i => t[i] = s[i]
=============================================================================
