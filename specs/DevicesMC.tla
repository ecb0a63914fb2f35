------------------------------ MODULE DevicesMC ------------------------------
EXTENDS Machine, Devices
CONSTANTS Level, Mode
B2 == {TRUE, FALSE}
Doms == { << a, 1, 2, 3, b, 4, 5, 6, l, c, f >> : a \in B2, b \in B2, c \in B2, l \in {FALSE}, f \in {"tf.txt"} } \cup { << TRUE, 0, 8, 2, FALSE, 0, 0, 0, TRUE, FALSE, "" >> }
D1 == << TRUE, 0, 8, 2, TRUE, 1, 9, 4, TRUE, TRUE, "a.dat" >>
M1 == << <<0, 0>>, <<2, 5>>, <<3, -1>> >>
Out(i, c, n, ty, d, els, par) == << "out", i, c, n, ty, d, els, par >>
Src(i, c, m, els, par) == << "src", i, c, m, els, par >>
OutNews == { Out(0, "elem", "a", 0, d, <<4, 7>>, <<>>) : d \in Doms } \cup { Out(0, "elem", "b", ty, D1, els, <<>>) : ty \in 0..9, els \in { <<>>, <<1, 6, 11>>, <<13>>, <<2, 3>>, <<12>> } }
  \cup { Out(0, "nod", "n", ty, D1, els, <<>>) : ty \in {0, 5}, els \in { <<1>>, <<2, 3>> } } \cup { Out(0, "lin", "l", 6, D1, els, <<>>) : els \in { <<4>>, <<5, 6>> } }
  \cup { Out(0, "surf", "s", 4, D1, <<7, 10>>, <<>>), Out(0, "vol", "v", 6, D1, <<11>>, <<>>), Out(0, "vol", "v", 5, D1, <<12, 13>>, <<>>) }
  \cup { Out(0, "bulk", "k", 5, D1, <<4>>, << a, k >>) : a \in 0..2, k \in {1, 3} } \cup { Out(0, "far", "f", 9, D1, <<11, 12>>, <<0, 1, 2, 3, 4, 5>>) }
SrcNews == { Src(0, "gen", m, <<1, 3>>, p) : m \in { <<>>, M1 }, p \in { <<1, 0>>, <<2, 1>> } }
  \cup { Src(0, "line", M1, <<4, 6>>, << a, b >>) : a \in 1..2, b \in 1..2 }
  \cup { Src(0, "pw", M1, <<11>>, << "v", d[1], d[2], d[3], p[1], p[2], p[3] >>) : d \in { Zero, <<0, 0, 1>>, <<1, 2, 2>> }, p \in { Zero, <<1, 0, 0>>, <<-2, 1, 0>>, <<0, 0, 3>> } }
  \cup { Src(0, "pw", M1, <<12>>, << "a", a, b, c, d >>) : a \in 0..2, b \in 0..3, c \in 0..2, d \in {0, 1} }
  \cup { Src(0, "pw", <<>>, <<>>, << "r", 7, 2 >>), Src(0, "dip", M1, <<13>>, << 3, <<1, 0, 2>>, <<4, 5, 6>> >>) }
  \cup { Src(0, "wg", M1, els, << e, m, n >>) : els \in { <<7>>, <<7, 8>>, <<9>>, <<10>>, <<>>, <<8, 9>> }, e \in {"TE", "TM"}, m \in 0..2, n \in 0..1 }
  \cup { Src(0, "tem", M1, <<7>>, << v, <<2, 2, 0>>, 1, 3 >>) : v \in {"voltage", "current"} }
Els(c) == CASE c \in {"elem", "bulk"} -> { <<>>, <<2, 9>>, <<11>> } [] c \in {"nod", "gen"} -> { <<2>>, <<>> } [] c \in {"lin", "line"} -> { <<5>>, <<>> }
            [] c = "surf" -> { <<8>>, <<>> } [] c = "wg" -> { <<8>>, <<8, 9>> } [] c = "tem" -> { <<8, 9>>, <<10>>, <<9>> } [] c \in {"vol", "far", "pw", "dip"} -> { <<12>>, <<>> }
\* a domain with one thing changed
Nearly(d) == { [d EXCEPT ![k] = IF k \in {1, 5, 9, 10} THEN ~@ ELSE IF k = 11 THEN @ \o "x" ELSE @ + 1] : k \in 1..11 }
More(x) == { e \in Els(x.c) : ToSet(e) \cap ToSet(x.els) = {} }
QOps(s) ==
  LET a == s[1]  b == s[2] IN
  IF a.c = "-" THEN (IF Mode = "out" THEN OutNews ELSE SrcNews) ELSE
  { << n, 1, 0 >> : n \in {"clone", "copy"} } \cup { <<"drop", 0>> }
  \cup UNION { IF s[i + 1].c = "-" THEN {} ELSE { << "set", i, e >> : e \in Els(s[i + 1].c) } \cup (IF s[i + 1].c \in {"wg", "tem"} THEN {} ELSE { << "add", i, e >> : e \in More(s[i + 1]) }) : i \in 0..1 }
  \cup (IF a.c \in Outs THEN { <<"name", 0, "z">>, <<"final", 0, 7>>, <<"sampling", 0, 9>>, << "domain", 0, NoDomain >>, << "base", 2, 0 >> } ELSE {})
  \cup (IF a.c = "elem" /\ b.c = "-" THEN { Out(1, "elem", "n", 0, d, <<>>, <<>>) : d \in Nearly(a.dom) } ELSE {})
  \cup (IF a.c \in Outs /\ b.c # "-" THEN { <<"eqdom", 0, 1>>, <<"final", 1, 6>> } ELSE {})
  \cup (IF a.c \notin Outs /\ b.c # "-" /\ a.mag # <<>> THEN { <<"eqmag", 0, 1>> } ELSE {})
  \cup (IF a.c \in {"wg", "tem"} THEN { << "weight", 0, << x, y, 0 >> >> : x \in 0..4, y \in 0..3 } ELSE {})
  \cup (IF a.c = "pw" /\ a.mag # <<>> /\ a.par[1] # "r" THEN { <<"field", 0, t>> : t \in {0, 2, 3} } ELSE {})
=============================================================================
