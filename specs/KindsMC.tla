------------------------------ MODULE KindsMC ------------------------------
EXTENDS Machine, Kinds
CONSTANT Level
C(k) == << k, << k % 3, (k \div 3) % 3, k \div 9 >> >>      \* coordinates of a lattice of 27 points
Cs(q) == MapS(C, q)
N(i, t, k, q) == << "new", i, t, k, 10 + i, (Len(q) % 3), 2, Cs(q), <<>> >>
Q(i, t, k, q, n) == << "new", i, t, k, 10 + i, 1, 0, Cs(q), n >>
Quads == { <<0, 1, 4, 3>>, <<0, 3, 4, 1>>, <<0, 4, 1, 3>>, <<0, 2, 8, 6>>, <<0, 1, 13, 12>>, <<0, 1, 5, 4>>, <<0, 10, 13, 3>>, <<1, 5, 7, 3>>, <<0, 1, 4, 12>> }
Hexes == { <<0, 1, 4, 3, 9, 10, 13, 12>>, <<0, 2, 8, 6, 18, 20, 26, 24>>, <<0, 1, 4, 3, 10, 11, 14, 13>>, <<9, 10, 13, 12, 0, 1, 4, 3>>, <<0, 2, 8, 6, 9, 10, 13, 12>>, <<0, 1, 4, 3, 9, 10, 13, 15>> }
Tets == { <<0, 1, 3, 9>>, <<1, 0, 3, 9>>, <<0, 2, 6, 18>>, <<0, 4, 12, 10>>, <<0, 1, 3, 4>>, <<13, 0, 2, 6>>, <<0, 9, 18, 1>> }
Tens == { <<0, 1, 3, 2, 4, 6, 9, 10, 12, 18>>, <<0, 1, 9, 2, 10, 18, 3, 4, 12, 6>>, <<0, 1, 3, 2, 4, 6, 9, 11, 12, 18>> }
Sixes == { <<0, 1, 3, 2, 4, 6>>, <<0, 1, 9, 2, 10, 18>>, <<0, 1, 3, 2, 5, 6>>, <<0, 4, 3, 2, 4, 6>> }
Tris == { <<0, 1, 3>>, <<3, 1, 0>>, <<0, 4, 12>>, <<0, 1, 2>>, <<0, 3, 9>>, <<5, 22, 7>> }
News(i) == { N(i, "Node", k, <<4>>) : k \in {"R", "I"} } \cup { N(i, "Line", k, q) : k \in {"R", "I"}, q \in { <<0, 1>>, <<13, 0>>, <<4, 4>> } }
  \cup { N(i, "Poly", k, q) : k \in {"R", "I"}, q \in { <<2, 1, 0>>, <<5>>, <<7, 8, 17, 7>> } } \cup { N(i, "Tri3", "R", q) : q \in Tris }
  \cup { N(i, "Tri6", "R", q) : q \in Sixes } \cup { N(i, "Qua4", "R", q) : q \in Quads } \cup { N(i, "Qua4", "I", q) : q \in { <<0, 1, 4, 3>>, <<0, 9, 12, 3>> } }
  \cup { N(i, "Tet4", "R", q) : q \in Tets } \cup { N(i, "Tet10", "R", q) : q \in Tens } \cup { N(i, "Hex8", k, q) : k \in {"R", "I"}, q \in Hexes }
  \cup { Q(i, "LConf", "I", <<0, 4>>, n) : n \in { <<1, 0, 0>>, <<0, 2, -3>> } }
Boxes == { << "boxed", 0, t, k, p, q, pre >> : t \in {"Node", "Line", "Qua4", "Hex8"}, k \in {"R", "I"},
           p \in { <<0, 0, 0>>, <<1, 2, 1>> }, q \in { <<0, 0, 0>>, <<0, 2, 0>>, <<1, 0, 1>>, <<2, 3, 2>>, <<0, 1, 2>> }, pre \in { <<>>, << <<0, 2, 0>>, <<1, 2, 1>>, <<2, 3, 2>> >> } }
Faces(e) == DOMAIN Sides(e)
KOps(s) ==
  LET a == s[1] IN
  IF a.ty = "-" THEN News(0) \cup Boxes ELSE
  (IF s[2].ty = "-" THEN { <<"clone", 1, 0>> } ELSE { <<"eq", 0, 1>> })
  \cup (IF Level = 2 /\ s[2].ty = "-" THEN News(1) ELSE {})
  \cup { <<"attr", 0, 0, 3>>, <<"attr", 0, 2, 2>>, <<"coord", 0, C(1)>>, <<"coord", 0, << 1, <<0, 0, 0>> >> >>, <<"clone", 0, 0>> }
  \cup { <<"setV", 0, k, C(16)>> : k \in (IF a.ty \in {"Line", "LConf"} \/ (a.k = "R" /\ a.ty \in {"Tri3", "Tri6", "Qua4", "Hex8"}) THEN DOMAIN a.cs ELSE {}) }
  \cup (IF a.ty \in {"Tri6", "Tet10", "Tri3"} THEN { <<"linear", 1, 0>> } ELSE {})
  \cup (IF a.ty \in {"Tet4", "Tet10"} THEN { <<"face", 1, 0, f - 1, 3>> : f \in Faces(a) } ELSE {})
  \cup (IF a.ty = "Tet10" THEN { <<"face", 1, 0, f - 1, 6>> : f \in Faces(a) } ELSE {})
  \cup (IF a.ty = "Tet4" /\ Vol6(a) # 0 THEN { <<"inside", 0, << x, y, z >> >> : x \in 0..3, y \in {1, 2}, z \in {1, 3} } ELSE {})
  \cup (IF a.ty \in {"Tet4", "Tet10"} /\ s[2].ty = "Tri3" THEN { <<"near", 0, 1>> } ELSE {})
=============================================================================
