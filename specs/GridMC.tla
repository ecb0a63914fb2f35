------------------------------- MODULE GridMC -------------------------------
EXTENDS Machine, Grid
CONSTANT Level
AxesSet == { <<0, 128>>, <<-128, 0, 64>>, <<64, 192, 448, 512>> } \cup (IF Level = 1 THEN {} ELSE { <<-64, 192, 256, 320, 576>>, <<-256, -192, -64>> })
Offs == { -70, -32, -2, -1, 0, 1, 2, 3, 12, 32, 33 } \cup (IF Level = 1 THEN {} ELSE { -65, -13, -7, -3, 6, 7, 13, 31, 64 })
Queries(q) == UNION { { q[i] + o : o \in Offs } : i \in 1..Len(q) }
\* sizes that are equal, almost equal, slowly graded and clearly different
Sizes == { <<256>>, <<256, 256, 256>>, <<256, 257, 255>>, <<256, 258, 260, 262, 264, 266>>, <<256, 256, 128>>, <<128, 256>>, <<257, 270, 256>> }
GOps(s) ==
  IF ~s.set THEN { <<"setPos", << a, <<-64, 0, 128>>, <<64, 320>> >> >> : a \in AxesSet } \cup { <<"ctor", << <<0, 64>>, a, <<-256, 0>> >> >> : a \in AxesSet }
    \cup { <<"box", <<-64, 0, 64>>, <<m, 128, 64 + n>>, <<64, 128, w>> >> : m \in {0, 1, 64, 127}, n \in {64, 129, 256}, w \in {64, 128} }
    \cup { <<"dims", <<-128, 0, 0>>, <<128, 192, 64>>, << k, 3, 1>> >> : k \in {1, 2, 4} }
    \cup { <<"regular", << a, b, <<256>> >> >> : a \in Sizes, b \in { <<256>>, <<260, 262>>, <<257, 256, 255>> } }
  ELSE
  { <<"copy">>, <<"assign">>, <<"scale", 2, 1>>, <<"scale", 1, 2>> }
  \cup { <<"extra", d, b, w>> : d \in 0..2, b \in 0..1, w \in { <<64>>, <<128, 64>> } }
  \cup UNION { { <<"cell", d, x, a, tol>> : x \in Queries(s.pos[d + 1]), a \in BOOLEAN, tol \in {1, 10} } : d \in 0..2 }
  \cup UNION { { <<"into1", d, x>> : x \in Queries(s.pos[d + 1]) } : d \in 0..2 }
  \cup UNION { { <<"natural", d, x>> : x \in Queries(s.pos[d + 1]) } : d \in 0..2 }
  \cup { <<"range", d, a, b>> : d \in 0..2, a \in {-65, -1, 0, 127}, b \in {129, 320} }
  \cup { <<n, << s.pos[1][1] + o, s.pos[2][2] + u, s.pos[3][1] + v >> >> : n \in {"isCell", "into", "frac"}, o \in {0, 1, 3, -64}, u \in {0, -2, -1, 32}, v \in {0, 32} }
  \cup { <<"cell3", << s.pos[1][1] + o, s.pos[2][2] + u, s.pos[3][1] + 16 >>, a >> : o \in {0, 1, 3, -64}, u \in {-2, 32}, a \in BOOLEAN }
  \cup { <<"around", << s.pos[1][1] + o, s.pos[2][1] + u, s.pos[3][1] + 16 >> >> : o \in {0, 1, 3}, u \in {0, 32} }
  \cup { <<"posOf", << NC(s.pos[1]), 0, NC(s.pos[3])>> >>, <<"boxOf", <<0, 0, 0>>, <<1, NC(s.pos[2]), 1>> >>,
         <<"centers", <<-300, 0, 0>>, <<600, 128, 400>> >>, <<"centers", <<0, 63, 0>>, <<127, 65, 600>> >> }
=============================================================================
