------------------------------ MODULE AlgebraMC ------------------------------
EXTENDS Machine, Algebra
CONSTANTS Level, Mode
Mats == { << <<2>> >>, << <<-1>> >>, << <<1, 2>> >>, << <<3>>, <<-2>> >>, << <<1, 2>>, <<3, 5>> >>, << <<0, 1>>, <<1, 0>> >>, << <<1, 2>>, <<2, 4>> >>, << <<0, 0>>, <<0, 7>> >>, << <<1, 0, 2>>, <<0, 0, 0>>, <<3, 0, 1>> >>,
  << <<2, 0, 1>>, <<2, 0, 1>> >>, << <<1, 1>>, <<0, 3>>, <<1, -1>> >>, << <<1, 0, 2>>, <<0, 1, 0>>, <<2, 0, 5>> >>, << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>, << <<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>> >>,
  << <<2, 1>>, <<1, 2>>, <<2, 1>>, <<1, 1>> >>, << <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 2, 3, 4>> >> }
Few == IF Level = 1 THEN { m \in Mats : Len(m) <= 3 } ELSE Mats
V3 == LET S == IF Level = 1 THEN {-1, 0, 2} ELSE {-2, -1, 0, 1, 3} IN S \X S \X S
V2 == {-3, 0, 1, 4} \X {-3, 0, 1, 4}
V4 == {0, 2} \X {-1, 0} \X {0, 3} \X {0, 1}
Vc(n, u, w, k) == << "vec", n, u, w, k >>
VecOps ==
  UNION { { Vc(n, u, w, 0) : n \in {"add", "sub", "mulv", "dot", "min", "order"}, u \in D, w \in D } : D \in {V2, V3, V4} }
  \cup UNION { { Vc(n, u, u, k) : n \in {"adds", "subs", "muls", "rsub", "set"}, k \in {-2, 0, 3}, u \in D } \cup { Vc(n, u, u, 0) : n \in {"neg", "max", "abs", "norm", "conv", "text"}, u \in D }
       \cup { Vc("divs", Vm(u, LAMBDA i : k * u[i]), u, k) : k \in {-2, 1, 3}, u \in D } \cup { Vc("unit", u, u, 0) : u \in { x \in D : NonZero(x) # {} } } : D \in {V2, V3, V4} }
  \cup { Vc("perm", u, u, k) : u \in V2, k \in 0..3 } \cup { Vc("perm", u, u, k) : u \in V3, k \in 0..4 } \cup { Vc("bin", <<9, 9, 9>>, <<0, 0, 0>>, k) : k \in 0..7 } \cup { Vc("bin", <<1, 0>>, <<0, 0>>, k) : k \in 0..3 }
  \cup { Vc(n, u, w, 0) : n \in {"cross", "planes"}, u \in V3, w \in V3 } \cup { Vc("axis", u, u, 0) : u \in { x \in V3 \cup V2 : NonZero(x) # {} } }
Ls == LET S == IF Level = 1 THEN {0, 3, 4, 7} ELSE {0, 1, 3, 4, 5, 7} IN S \X S \X S
Gs == { <<0, 0, 0>>, <<5, 0, 2>>, <<1, 6, 4>>, <<0, 3, 0>> }
FracOps == { << "frac", n, Frac(<<2, -1, 0>>, l), Frac(<<-1, 3, 0>>, g), k >> : n \in {"base", "scale", "mean", "near", "eq", "carry", "snap", "join"}, l \in Ls, g \in Gs, k \in {0} }
  \cup { << "frac", n, Frac(<<0, 4, -2>>, l), Frac(<<1, 1, 1>>, g), k >> : n \in {"snapto"}, l \in Ls, g \in { <<0, 1, 0>> }, k \in 0..3 }
  \cup { << "frac", "move", Frac(<<0, 4, -2>>, l), Frac(<<1, 1, 1>>, g), k >> : l \in Ls, g \in Gs, k \in 0..1 }
  \cup { << "frac", n, Frac(<<0, 4, -2>>, l), Frac(<<0, 4, -2>>, l), 0 >> : n \in {"eq", "carry"}, l \in {0, 8, 3} \X {0, 8} \X {0, 8, 1} }
Pos(m) == m.r * m.c > 0
AllDiv(m, k) == \A x \in Cells(m) : Exact(x, k)
(* exactly invertible over the integers, or singular beyond any rounding *)
Null(m) == (\E k \in 1..m.r : \A j \in 1..m.c : m.v[k][j] = 0) \/ (\E j \in 1..m.c : \A k \in 1..m.r : m.v[k][j] = 0)
Invertible(m) == Abs(Det(m)) = 1 \/ Null(m)
One(m, i) ==
  IF ~Pos(m) THEN {} ELSE
  { <<"zeros", i>>, <<"t", i>>, <<"sort", i>>, <<"uniq", i>>, <<"max", i>>, <<"sym", i>>, <<"arr", i>>, <<"row", i, m.r - 1>>, <<"cell", i, m.r - 1, 0, 6>>, <<"fill", i, 4>>, <<"iadds", i, -1>>, <<"imuls", i, 3>>,
    <<"muls", 3, i, -2>>, <<"clone", 3, i>>, <<"assign", 3, i>>, <<"assign", i, i>>, <<"iadd", i, i>>, <<"sub", 3, i, 0, m.r - 1, m.c - 1, m.c - 1>>, <<"block", 3, i, m.r - 1, m.r, 0, m.c>>,
    <<"reshape", 3, i, m.c, m.r, 1>>, <<"reshape", 3, i, 1, m.r * m.c, 2>>, <<"kron", 3, i, i>>, <<"tocol", i, 0, [k \in 1..m.r |-> k]>>, <<"torow", i, m.r - 1, [k \in 1..m.c |-> 10 * k]>>, <<"eq", i, i>>, <<"col", i, <<5, 6>> >> }
  \cup { << "sortby", i, p[1], p[2] >> : p \in { q \in (0..m.c - 1) \X (0..m.c - 1) : q[1] <= q[2] } } \cup (IF m.c > 1 THEN { <<"elim", 3, i, 0, 0>>, <<"elim", 3, i, m.c - 1, m.c - 1>> } ELSE {})
  \cup (IF m.r = m.c THEN { <<"eye", i>>, <<"lower", i>> } \cup (IF Invertible(m) THEN { <<"inv", 3, i>>, <<"inv", i, i>> } ELSE {}) \cup (IF m.r >= 3 THEN { <<"det", i>> } ELSE {}) ELSE {})
  \cup (IF m.c = 3 THEN { <<"cart", i>> } ELSE {}) \cup (IF m.r > 1 \/ m.c = 1 THEN {} ELSE {})
  \cup (IF SortedBy(m.v, 1, m.c) THEN { << "find", i, 0, SubSeq(m.v[k], 1, n) >> : k \in 1..m.r, n \in 1..m.c } \cup { << "find", i, 0, <<x>> >> : x \in {-9, 1, 99} } \cup { <<"uniqsorted", i>> } ELSE {})
  \cup UNION { IF AllDiv(m, k) THEN { <<"idivs", i, k>>, <<"divs", 3, i, k>> } ELSE {} : k \in {2, -1} }
Two(s) == LET a == s[1]  b == s[2] IN
  IF ~Pos(a) \/ ~Pos(b) THEN {} ELSE
  (IF Fits(a, b) THEN { <<"add", 3, 1, 2>>, <<"add", 1, 1, 2>>, <<"iadd", 1, 2>>, <<"lt", 1, 2>> } ELSE {}) \cup (IF a.c = b.r THEN { <<"mul", 3, 1, 2>>, <<"mul", 1, 1, 2>> } ELSE {})
  \cup { <<"kron", 3, 1, 2>>, <<"eq", 1, 2>> } \cup (IF a.c = b.c /\ SortedBy(a.v, 1, a.c) /\ SortedBy(b.v, 1, b.c) THEN { <<"merge", 1, 2>> } ELSE {}) \cup (IF a.c = 1 /\ b.c = 1 THEN { <<"conv", 3, 1, 2>> } ELSE {})
Fixed(s) == LET a == s[1]  b == s[2] IN
  IF ~Pos(a) \/ ~Pos(b) THEN {} ELSE
  LET F(n, k) == << "fixed", n, 1, 2, k >> IN
  (IF Fits(a, b) THEN { F(n, 0) : n \in {"add", "iadd", "isub", "eq"} } ELSE {}) \cup (IF a.c = b.r THEN { F("mul", 0), F("muldyn", 0) } ELSE {}) \cup { F(n, k) : n \in {"muls", "imuls", "iadds"}, k \in {-1, 0, 2} }
  \cup { F(n, 0) : n \in {"t", "copy", "zeros", "max", "arr", "sym"} } \cup (IF b.c = a.c THEN { F("vec", 0) } ELSE {}) \cup (IF AllDiv(a, 2) THEN { F("idivs", 2) } ELSE {}) \cup { F("idivs", -1) }
  \cup (IF a.r = a.c THEN { F("eye", 0) } \cup (IF b.c = a.r THEN { F("diag", 0) } ELSE {}) \cup (IF a.r >= 3 THEN { F("det", 0) } ELSE {}) \cup (IF Invertible(a) THEN { F("inv", 0) } ELSE {}) ELSE {})
AOps(s) ==
  CASE Mode = "values" -> VecOps \cup FracOps
    [] OTHER ->
       IF s[1].r = 0 THEN { << "mat", 1, h, m >> : h \in {"copy", "set", "rows"}, m \in Mats } \cup { << "col", 1, <<4, -4>> >> }
       ELSE IF s[2].r = 0 THEN { << "mat", 2, "copy", m >> : m \in Few } \cup One(s[1], 1)
       ELSE One(s[2], 2) \cup Two(s) \cup Fixed(s) \cup (IF s[3].r > 0 THEN One(s[3], 3) ELSE {})
=============================================================================
