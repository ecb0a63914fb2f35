------------------------------ MODULE FacesMC ------------------------------
EXTENDS Machine, Faces
CONSTANT Level
\* a lattice of 3 x 3 x 2 points; four hexahedra, the six tetrahedra of one cube and of its neighbour, and surfaces on their faces
Pt(k) == << k + 1, << k % 3, (k \div 3) % 3, k \div 9 >> >>
Hexes == { << 0, 1, 4, 3, 9, 10, 13, 12 >>, << 1, 2, 5, 4, 10, 11, 14, 13 >>, << 3, 4, 7, 6, 12, 13, 16, 15 >>, << 13, 14, 17, 16, 4, 5, 8, 7 >> }
\* the last one is listed the other way round: turn it so that it is right-handed too
Turn(q) == IF q[1] > q[5] THEN << q[5], q[6], q[7], q[8], q[1], q[2], q[3], q[4] >> ELSE q
Rot(q) == << q[2], q[3], q[4], q[1], q[6], q[7], q[8], q[5] >>
Kuhn == << <<0, 1, 4, 13>>, <<0, 4, 3, 13>>, <<0, 3, 12, 13>>, <<0, 12, 9, 13>>, <<0, 9, 10, 13>>, <<0, 10, 1, 13>> >>
HexV == { Turn(q) : q \in Hexes } \cup { Rot(<< 0, 1, 4, 3, 9, 10, 13, 12 >>) }
HexS == { <<1, 4, 13, 10>>, <<4, 1, 10, 13>>, <<3, 4, 13, 12>>, <<13, 4, 3, 12>>, <<0, 3, 12, 9>>, <<7, 8, 17, 16>>, <<4, 5, 14, 13>> }
TetS == { <<0, 4, 13>>, <<13, 4, 0>>, <<0, 1, 4>>, <<3, 0, 13>>, <<1, 4, 13>> }
Add(i, t, q) == << "add", i, t, MapS(Pt, q) >>
Uses(m, q) == \E e \in DOMAIN m : { x[1] - 1 : x \in ToSet(m[e].cs) } = ToSet(q)
IsTet(m) == \E e \in DOMAIN m : m[e].ty \in {"Tet4", "Tri3"}
IsHex(m) == \E e \in DOMAIN m : m[e].ty \in {"Hex8", "Qua4"}
Cands(m) ==
  LET i == CHOOSE i \in { 45, 48, 42, 39, 36 } : \A e \in DOMAIN m : m[e].id # i
      h == { Add(i, "Hex8", q) : q \in { q \in HexV : ~Uses(m, q) } } \cup { Add(i, "Qua4", q) : q \in { q \in HexS : ~Uses(m, q) } }
      t == { Add(i, "Tet4", q) : q \in { q \in ToSet(Kuhn) : ~Uses(m, q) } } \cup { Add(i, "Tri3", q) : q \in { q \in TetS : ~Uses(m, q) } } IN
  (IF IsTet(m) THEN {} ELSE h) \cup (IF IsHex(m) THEN {} ELSE t)
FOps(m) == { op \in Cands(m) : LET t == FStep(m, op).st IN Fine(t, Table(t), Len(t)) } \cup (IF Len(m) > 1 THEN { << "drop", m[1].id >> } ELSE {})
=============================================================================
