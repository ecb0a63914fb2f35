------------------------------ MODULE PointsMC ------------------------------
EXTENDS Machine, Points
CONSTANT Level
G1 == << <<0, 8, 16>>, <<-8, 0, 24>>, <<8, 40, 48>> >>
G2 == << <<-16, 0>>, <<0, 8, 32>>, <<0, 16>> >>
Grids == {G1, G2}
Rs == { <<0, 0, 8>>, <<8, -8, 40>>, <<16, 24, 48>>, <<4, 0, 8>>, <<-16, 8, 16>>, <<24, 0, 8>>, <<0, 8, 47>> }
Ps == { <<0, 0, 0>>, <<1, 1, 1>>, <<0, 1, 0>>, <<2, 2, 2>>, <<1, 0, 1>> }
Xs(k) == CASE k = "C" -> { <<a, l>> : a \in 0..2, l \in {0, 3, 8} } [] k = "L" -> { <<0, 0, 0>>, <<1, 2, 4>>, <<0, 7, 0>> } [] OTHER -> { <<>> }
News(i) == { << "new", i, "R", 1, p, <<>> >> : p \in Rs } \cup UNION { { << "new", i, k, 1, p, x >> : p \in Ps, x \in Xs(k) } : k \in {"I", "C", "L"} }
  \cup { << "bare", i, "R", p, <<>> >> : p \in {<<8, -8, 41>>} } \cup { << "bare", i, "I", <<1, 0, 2>>, <<>> >> } \cup { << "bare", i, "C", V0, x >> : x \in Xs("C") }
  \cup { << "blank", i, k >> : k \in {"R", "I", "C", "L"} } \cup { << "split", i, n, v >> : n \in {0, 4}, v \in { <<0, 8, 13>>, <<-1, -8, 7>>, <<16, 3, -13>> } }
QOps(s) == LET a == s[1]  b == s[2] IN
  IF a.k = "-" THEN News(0) ELSE
  (IF b.k = "-" THEN { <<"clone", 1, 0>>, <<"copy", 1, 0>> } \cup (IF Level = 2 THEN News(1) ELSE {})
   ELSE { <<"eq", 0, 1>>, <<"eq", 1, 0>>, <<"id", 1, 3>>, <<"move", 1, 2, 1>> } \cup (IF a.k = b.k THEN { <<"assign", 0, 1>>, <<"assign", 1, 0>> } ELSE {}))
  \cup { <<"assign", 0, 0>>, <<"eq", 0, 0>>, <<"id", 0, 2>>, <<"move", 0, 1, 1>>, <<"move", 0, 3, 0>> }
  \cup (IF a.k = "L" THEN { <<"rel", 0, 1, 5>>, <<"rel", 0, 3, 0>> } ELSE {})
  \cup UNION { (IF a.k = "R" THEN { <<"struct", 0, g>> } \cup (IF Structured(g, a) THEN { <<"toI", 1, 0, g>>, <<"toI", 0, 0, g>> } ELSE {})
                ELSE IF Valid(g, a.p) /\ (\A d \in 1..3 : Frac(a, d) = 0 \/ a.p[d] + 1 < Len(g[d])) THEN { <<"toR", 1, 0, g>> } ELSE {}) : g \in Grids }
=============================================================================
