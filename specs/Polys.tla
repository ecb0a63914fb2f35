------------------------------- MODULE Polys -------------------------------
(* Polynomials of several variables (src/core/math/function/Polynomial) and  *)
(* the bases that the simplices build with them (src/core/math/simplex).     *)
(* A polynomial is [nv variables, c coefficients as a function from powers   *)
(* to non-zero numerators, k: the denominator is 2^k, t: tag that copies     *)
(* share].  The simplices of dimension d and order n have one node for each  *)
(* way of writing n as the sum of d + 1 indices.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
Unit == 1024
Zero(nv) == [nv |-> nv, c |-> <<>>, k |-> 0, t |-> 0]
IInit == [p |-> << Zero(1), Zero(1), Zero(1) >>, n |-> 0]
Pow(b, e) == FoldLeft(LAMBDA a, x : a * b, 1, [i \in 1..e |-> 0])
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Prod(q) == FoldLeft(LAMBDA a, x : a * x, 1, q)
Coef(c, w) == IF w \in DOMAIN c THEN c[w] ELSE 0
Clean(c) == [w \in { v \in DOMAIN c : c[v] # 0 } |-> c[w]]
Plus(c, w, v) == Clean([u \in DOMAIN c \cup {w} |-> Coef(c, u) + (IF u = w THEN v ELSE 0)])
\* the terms << powers, numerator >> added up
Collect(q) == FoldLeft(LAMBDA c, x : Plus(c, x[1], x[2]), <<>>, q)
Terms(c) == LET s == SetToSeq(DOMAIN c) IN [i \in 1..Len(s) |-> << s[i], c[s[i]] >>]
Cross(a, b, F(_, _)) == LET x == Terms(a)  y == Terms(b) IN
  Collect(FlattenSeq([i \in 1..Len(x) |-> [j \in 1..Len(y) |-> << F(x[i][1], y[j][1]), x[i][2] * y[j][2] >>]]))
Mul(p, q) == [nv |-> 1, c |-> Cross(p.c, q.c, LAMBDA u, v : << u[1] + v[1] >>), k |-> p.k + q.k, t |-> 0]
Ext(p, q) == [nv |-> p.nv + q.nv, c |-> Cross(p.c, q.c, LAMBDA u, v : u \o v), k |-> p.k + q.k, t |-> 0]
Der(p, d) == LET x == Terms(p.c) IN
  [p EXCEPT !.c = Collect(FlattenSeq([i \in 1..Len(x) |-> IF x[i][1][d + 1] = 0 THEN <<>> ELSE << << [x[i][1] EXCEPT ![d + 1] = @ - 1], x[i][2] * x[i][1][d + 1] >> >>]))]
\* the numerator of the value at a point
Num(p, x) == LET q == Terms(p.c) IN Sum([i \in 1..Len(q) |-> q[i][2] * Prod([j \in 1..p.nv |-> Pow(x[j], q[i][1][j])])])
At(p, x) == (Num(p, x) * Unit) \div Pow(2, p.k)
Points == << <<1, 1, 1, 1>>, <<2, -1, 1, 0>>, <<0, 2, -1, 1>>, <<-1, 0, 2, 2>> >>
Of(p) == [w \in DOMAIN p.c |-> (p.c[w] * Unit) \div Pow(2, p.k)]
MaxPow(ws) == Max({0} \cup UNION { ToSet(w) : w \in ws })
Eq(a, b) == IF a.t = b.t THEN "t" ELSE IF Of(a) # Of(b) THEN "f" ELSE "u"
IObs(st) == [p |-> [i \in 1..3 |-> LET p == st.p[i] IN << p.nv, [x \in 1..Len(Points) |-> IF p.nv = 0 THEN 0 ELSE At(p, Points[x])] >>],
             q |-> [i \in 1..3 |-> [j \in 1..3 |-> Eq(st.p[i], st.p[j])]]]
IStep(st, op) ==
  LET n == op[1]
      P(i) == st.p[i + 1]
      New(i, p) == [st |-> [st EXCEPT !.p[i + 1] = [p EXCEPT !.t = st.n + 1], !.n = st.n + 1], res |-> "ok"]
      Same(i, p) == [st |-> [st EXCEPT !.p[i + 1] = p], res |-> "ok"]
  IN
  CASE n = "new" -> New(op[2], Zero(op[3]))
    [] n = "add" -> New(op[2], [P(op[2]) EXCEPT !.c = Plus(@, op[3], op[4] * Pow(2, P(op[2]).k))])
    [] n = "mul" -> New(op[2], Mul(P(op[3]), P(op[4])))
    [] n = "imul" -> New(op[2], Mul(P(op[2]), P(op[3])))
    [] n = "ext" -> New(op[2], Ext(P(op[3]), P(op[4])))
    [] n = "iext" -> New(op[2], Ext(P(op[2]), P(op[3])))
    \* by 1, -1, 2 or -2
    [] n = "div" -> New(op[2], [P(op[2]) EXCEPT !.c = [w \in DOMAIN @ |-> IF op[3] < 0 THEN -@[w] ELSE @[w]], !.k = @ + (IF op[3] \in {2, -2} THEN 1 ELSE 0)])
    [] n = "der" -> New(op[2], Der(P(op[2]), op[3]))
    [] n = "rz" -> New(op[2], P(op[2]))
    [] n \in {"copy", "assign"} -> Same(op[2], P(op[3]))
    [] n = "vec" -> New(op[2], [Zero(1) EXCEPT !.c = Collect([i \in 1..Len(op[3]) |-> << << i - 1 >>, op[3][i] >>])])
    [] n = "mat" -> New(op[2], IF Len(op[3][1]) = 1 THEN [Zero(1) EXCEPT !.c = Collect([i \in 1..Len(op[3]) |-> << << i - 1 >>, op[3][i][1] >>])]
                               ELSE [Zero(2) EXCEPT !.c = Collect(FlattenSeq([i \in 1..Len(op[3]) |-> [j \in 1..Len(op[3][1]) |-> << << i - 1, j - 1 >>, op[3][i][j] >>]]))])
    [] OTHER -> [st |-> st, res |-> "relation"]
ICan(st, op) ==
  LET n == op[1]  P(i) == st.p[i + 1] IN
  CASE n = "add" -> Len(op[3]) = P(op[2]).nv
    [] n = "mul" -> P(op[3]).nv = 1 /\ P(op[4]).nv = 1
    [] n = "imul" -> P(op[2]).nv = 1 /\ P(op[3]).nv = 1
    [] n = "ext" -> P(op[3]).nv + P(op[4]).nv <= 4
    [] n = "iext" -> P(op[2]).nv + P(op[3]).nv <= 4
    [] n = "der" -> op[3] < P(op[2]).nv
    [] n = "div" -> P(op[2]).k < 5
    [] n = "tomat" -> P(op[2]).nv = 1
    [] OTHER -> TRUE
(* Bases on simplices *)
Fact(n) == Prod([i \in 1..n |-> i])
RECURSIVE Comps(_, _)
Comps(n, m) == IF m = 1 THEN { << n >> } ELSE UNION { { << a >> \o w : w \in Comps(n - a, m - 1) } : a \in 0..n }
Falling(q, n) == Prod([i \in 1..n |-> q - i + 1])
Choose(q, n) == Falling(q, n) \div Fact(n)
\* n! times the derivative of the binomial coefficient
DFalling(q, n) == Sum([k \in 1..n |-> Prod([l \in 1..n |-> IF l = k THEN 1 ELSE q - l + 1])])
Basis(w, q) == Prod([j \in 1..Len(w) |-> Choose(q[j], w[j])])
DBasis(w, q, s) == DFalling(q[s], w[s]) * Prod([j \in 1..Len(w) |-> IF j = s THEN 1 ELSE Choose(q[j], w[j])])
D == 2520
Corner(w, n) == n \in ToSet(w)
\* nodes, their positions (times n), the vertices, the nodes of each side and the vertices of each side
NodesOK(d, n, r) ==
  LET x == r[1]  Ix(k) == x[k + 1] IN
  /\ ToSet(x) = Comps(n, d + 1) /\ Len(x) = Cardinality(Comps(n, d + 1))
  /\ d > 1 => r[2] = x
  /\ Len(r[3]) = d + 1 /\ IsInjective(r[3]) /\ \A i \in 1..(d + 1) : r[3][i] < Len(x) /\ Corner(Ix(r[3][i]), n)
  /\ Len(r[4]) = d + 1
  /\ \E f \in [1..(d + 1) -> 1..(d + 1)] : IsInjective(f) /\ \A i \in 1..(d + 1) :
       /\ IsInjective(r[4][i])
       /\ { Ix(k) : k \in ToSet(r[4][i]) } = { w \in ToSet(x) : w[f[i]] = 0 }
       /\ d > 1 => { Ix(k) : k \in ToSet(r[5][i]) } = { w \in ToSet(x) : w[f[i]] = 0 /\ Corner(w, n) } /\ IsInjective(r[5][i])
\* weights integrate every monomial of the barycentric coordinates up to the order
WeightsOK(d, n, r) ==
  /\ { r[i][1] : i \in 1..Len(r) } = Comps(n, d + 1) /\ Len(r) = Cardinality(Comps(n, d + 1))
  /\ \A m \in 0..n : \A a \in Comps(m, d + 1) :
       Prod([i \in 1..m |-> d + i]) * Sum([i \in 1..Len(r) |-> r[i][2] * Prod([j \in 1..(d + 1) |-> Pow(r[i][1][j], a[j])])]) = D * Pow(n, m) * Prod([j \in 1..(d + 1) |-> Fact(a[j])])
IInv(st) ==
  /\ \A i \in 1..3 : \A w \in DOMAIN st.p[i].c : Len(w) = st.p[i].nv /\ st.p[i].c[w] # 0
  /\ \A i, j \in 1..3 : Eq(st.p[i], st.p[j]) = Eq(st.p[j], st.p[i]) /\ (Eq(st.p[i], st.p[j]) = "t" => Of(st.p[i]) = Of(st.p[j]))
ITrans(s, op, t) ==
  LET n == op[1]  P(i) == s.p[i + 1]  T(i) == t.p[i + 1] IN
  \* the value of a product is the product of the values
  /\ n = "mul" => \A x \in 1..Len(Points) : Num(T(op[2]), Points[x]) = Num(P(op[3]), Points[x]) * Num(P(op[4]), Points[x])
  /\ n = "ext" => \A x \in 1..Len(Points) : LET y == Points[x]  a == P(op[3]).nv IN Num(T(op[2]), y) = Num(P(op[3]), y) * Num(P(op[4]), SubSeq(y, a + 1, Len(y)))
  \* Leibniz
  /\ n = "imul" => Of(Der(T(op[2]), 0)) = LET u == Mul(Der(P(op[2]), 0), P(op[3]))  v == Mul(P(op[2]), Der(P(op[3]), 0)) IN Of([u EXCEPT !.c = Collect(Terms(u.c) \o Terms(v.c))])
  /\ \A i \in 1..3 : t.p[i] # s.p[i] => i = op[2] + 1
=============================================================================
