------------------------------- MODULE MeshMC -------------------------------
EXTENDS Machine, Mesh
CONSTANTS Mode, Level
G1 == << <<0, 64, 192>>, <<-64, 0, 64>>, <<0, 128>> >>
G2 == << <<-64, 0>>, <<0, 64>>, <<0, 64, 128>> >>
C(id, p) == << id, "R", p, ZeroV >>
Ci(id, p) == << id, "I", p, ZeroV >>
L2 == << <<2, "in">>, <<1, "out">> >>
\* a few meshes to copy, edit and scale
UM == << "U", <<>>, << C(3, <<0, 0, 0>>), C(1, <<64, 0, 0>>), C(7, <<64, 64, 128>>), C(2, <<0, -64, 0>>) >>,
         << <<5, "Line", <<3, 1>>, 1, 2>>, <<2, "Tri3", <<3, 1, 7>>, 2, 1>>, <<9, "Node", <<2>>, 0, 0>>, <<4, "Poly", <<2, 3, 1, 7>>, 1, 0>> >>, L2 >>
GM == << "G", G1, << C(3, <<0, 0, 0>>), C(1, <<64, 0, 0>>), C(7, <<192, -64, 128>>), C(2, <<64, 16, 0>>) >>,
         << <<5, "Line", <<3, 1>>, 1, 2>>, <<2, "Node", <<7>>, 2, 1>>, <<6, "Line", <<3, 2>>, 2, 3>> >>, L2 >>
SM == << "S", G1, << Ci(3, <<0, 1, 0>>), Ci(1, <<1, 1, 0>>), << 7, "L", <<1, 2, 0>>, <<1, 2, 3>> >>, << 2, "C", <<0, 1, 0>>, <<0, 2, 0>> >>, << 4, "C", <<0, 0, 0>>, <<1, 0, 0>> >>,
                         << 8, "L", <<2, 2, 1>>, <<1, 0, 2>> >> >>,
         << <<5, "Line", <<3, 1>>, 1, 2>>, <<2, "LConf", <<4, 2>>, 2, 1>>, <<9, "Node", <<7>>, 0, 3>>, <<4, "Poly", <<7, 3, 8>>, 1, 0>> >>, L2 >>
Empty == << "U", <<>>, <<>>, <<>>, <<>> >>
New(i, m) == << "new", i >> \o m
Ids3(m) == SetToSortSeq(Ids(m.es), <)
Edits(s, i) ==
  LET m == s[i + 1] IN
  IF m.k = "-" THEN {} ELSE
  (IF m.es = <<>> THEN {} ELSE LET e == m.es[1] IN
     { <<"setLay", i, e.id, 2>>, <<"setLay", i, e.id, 0>>, <<"setMat", i, e.id, 4>>, <<"setV", i, e.id, 1, 2>>, <<"remE", i, << e.id, 9 >> >> })
  \cup (IF m.k = "S" THEN { <<"bound", i, 1, 0, 2>>, <<"bound", i, 1, 0, 0>>, <<"bound", i, 2, 1, 3>> } ELSE {})
  \cup (IF m.k # "U" /\ Len(m.grid[3]) < 4 THEN { <<"pad", i, 2, 64>> } ELSE {})
  \cup (IF 3 \in Ids(m.cs) THEN { <<"move", i, 3, IF m.k = "S" THEN <<1, 0, 1>> ELSE <<128, 64, 0>> >> } ELSE {})
  \cup (IF Len(m.cs) > 0 /\ 10 \notin Ids(m.cs) THEN { <<"addC", i, IF m.k = "S" THEN Ci(10, <<0, 0, 1>>) ELSE C(10, <<-64, 0, 64>>)>> } ELSE {})
  \cup (IF 10 \in Ids(m.cs) /\ 10 \notin Ids(m.es) THEN { <<"addE", i, <<10, "Node", <<10>>, 1, 5>> >> } ELSE {})
  \cup (IF m.k # "-" /\ 3 \notin Ids(m.ls) THEN { <<"addL", i, <<3, "new">> >> } ELSE {})
Copies(s) ==
  { << c, 1 - i, i >> : c \in {"copy", "clone"}, i \in { j \in 0..1 : s[j + 1].k # "-" } }
  \cup (IF s[1].k = s[2].k /\ s[1].k # "-" THEN { <<"assign", 0, 1>>, <<"assign", 1, 0>> } ELSE {})
  \cup (IF s[1].k # "-" /\ s[2].k # "-" THEN { <<"drop", 0>> } ELSE {})
\* one element of each kind over a lattice around the grid
Lattice == { <<x, y, z>> : x \in {0, 64, 192}, y \in {-64, 0}, z \in {0, 128} } \cup { <<16, 0, 0>>, <<64, -64, 160>>, <<256, 0, 0>>, <<-32, 0, 0>> }
Corner(lo, hi, c) == [d \in 1..3 |-> IF (c \div (2 ^ (d - 1))) % 2 = 1 THEN hi[d] ELSE lo[d]]
Some(ps, ty) == << "G", G1, [i \in 1..Len(ps) |-> C(i + 1, ps[i])], << <<3, ty, [i \in 1..Len(ps) |-> i + 1], 1, 2>> >>, << <<1, "a">> >> >>
Quads == { << lo, [lo EXCEPT ![d] = a], [[lo EXCEPT ![d] = a] EXCEPT ![f] = b], [lo EXCEPT ![f] = b] >> :
             lo \in { <<0, -64, 0>>, <<64, 0, 0>>, <<0, 0, 128>> }, d \in 1..3, f \in 1..3, a \in {0, 64, 16}, b \in {128, 64, 0} }
Hexes == { [c \in 1..8 |-> Corner(lo, hi, (c * k) % 8)] : lo \in { <<0, -64, 0>>, <<64, 0, 0>> }, hi \in { <<64, 0, 128>>, <<192, 64, 128>>, <<192, 0, 128>> }, k \in {1, 3, 2} }
\* structured meshes with coordinates of the three kinds
SCells == { Ci(2, p) : p \in { <<0, 0, 0>>, <<2, 2, 1>>, <<1, 0, 1>> } }
          \cup { << 2, "L", p, x >> : p \in { <<0, 1, 0>>, <<2, 1, 1>> }, x \in { <<0, 0, 0>>, <<1, 2, 0>>, <<3, 3, 3>> } }
          \cup { << 2, "C", <<1, 1, 0>>, <<a, l, 0>> >> : a \in 0..2, l \in 0..3 }
SLine(a, ty) == << "S", G1, << a, << 1, "C", <<1, 1, 0>>, <<2, 1, 0>> >>, Ci(4, <<0, 0, 0>>) >>, << <<3, ty, IF ty = "LConf" THEN <<1, 1>> ELSE <<2, 1>>, 1, 2>>, <<8, "Poly", <<1, 2, 4>>, 0, 0>> >>, << <<1, "a">> >> >>
Factors == { <<1, 2>>, <<2, 1>>, <<4, 1>>, <<1, 1>>, <<3, 1>> }
MOps(s) ==
  CASE Mode = "copy" ->
       (IF s = MInit THEN { New(0, m) : m \in { UM, GM, SM, Empty } } ELSE
        Copies(s) \cup Edits(s, 0) \cup Edits(s, 1)
        \cup { <<"retarget", i, Ids3(s[i + 1])>> : i \in { j \in 0..1 : s[j + 1].k # "-" } })
    [] Mode = "conv" ->
       (IF s = MInit THEN { New(0, m) : m \in { Some(<<p>>, "Node") : p \in Lattice } \cup { Some(<<p, q>>, "Line") : p \in Lattice, q \in Lattice }
                                       \cup { Some(q, "Qua4") : q \in Quads } \cup { Some(h, "Hex8") : h \in Hexes } \cup { UM, GM, SM }
                                       \cup { SLine(a, ty) : a \in SCells, ty \in {"Line", "LConf"} } }
        ELSE { <<"toS", j, i, g>> : i \in { k \in 0..1 : s[k + 1].k \in {"U", "G"} }, j \in 1..2, g \in (IF Level > 1 THEN { G1, G2 } ELSE { G1 }) }
             \cup { <<"toS", 1, i, <<>> >> : i \in { k \in 0..1 : s[k + 1].k = "G" } }
             \cup { <<"toU", j, i>> : i \in { k \in 0..1 : s[k + 1].k = "S" }, j \in 1..2 })
    [] Mode = "scale" ->
       (IF s = MInit THEN { New(0, m) : m \in { UM, GM, SM, Empty } } ELSE
        { <<"scale", i, f[1], f[2]>> : i \in { j \in 0..1 : s[j + 1].k # "-" }, f \in Factors }
        \cup { <<"copy", 1 - i, i>> : i \in { j \in 0..1 : s[j + 1].k # "-" } } \cup { <<"step", i>> : i \in { j \in 0..1 : s[j + 1].k = "S" } })
Bounded == TRUE
=============================================================================
