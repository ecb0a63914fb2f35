------------------------------ MODULE DataSetMC ------------------------------
EXTENDS Machine, DataSet
CONSTANT Level
GG == << <<0, 64, 128>>, <<0, 64>>, <<0, 64>> >>
L1 == << <<1, "a">>, <<2, "b">> >>
DMesh == << "U", <<>>, << << 3, "R", <<0, 0, 0>>, ZeroV >>, << 1, "R", <<64, 0, 0>>, ZeroV >> >>,
            << <<5, "Line", <<3, 1>>, 1, 2>>, <<2, "Node", <<1>>, 0, 0>>, <<7, "Line", <<1, 3>>, 2, 1>> >>, L1 >>
SMesh == << "S", GG, << << 3, "I", <<0, 0, 0>>, ZeroV >>, << 1, "I", <<1, 0, 0>>, ZeroV >> >>,
            << <<5, "Line", <<3, 1>>, 1, 2>>, <<2, "Node", <<1>>, 0, 0>> >>, L1 >>
Mats == << << <<2, "m">>, <<1, "n">> >> >>
Srcs == << << <<"gen", <<2>> >>, <<"line", <<5>> >> >> >>
Outs == << << <<"elem", "o", <<5, 2>> >> >> >>
B(m, a, b, c, d) == << "build", 0, m, a, b, c, d >>
Builds == { B(DMesh, Mats, Srcs, Outs, <<"s">>), B(SMesh, Mats, Srcs, Outs, <<>>), B(DMesh, <<>>, Srcs, <<>>, <<>>), B(DMesh, Mats, <<>>, << <<>> >>, <<"t">>),
            B(<<>>, Mats, Srcs, Outs, <<"s">>), B(<<>>, <<>>, <<>>, <<>>, <<>>), B(SMesh, Mats, << <<>> >>, Outs, <<>>) }
DEdits(s, i) ==
  LET x == s[i + 1] IN
  IF ~x.on THEN {} ELSE
  (IF x.mesh.k # "-" /\ x.mats # <<>> THEN { <<"mesh", i, "setMat", 5, 1>>, <<"mesh", i, "setMat", 2, 2>> } ELSE {})
  \cup (IF x.mesh.k # "-" THEN { <<"mesh", i, "setLay", 5, 2>>, <<"mesh", i, "move", 3, <<1, 0, 0>> >> } ELSE {})
  \cup (IF x.mesh.k \in {"U", "S"} THEN { <<"mesh", i, "scale", 2, 1>> } ELSE {})
  \cup (IF x.srcs # <<>> /\ Len(x.srcs[1]) > 1 THEN { <<"srcSet", i, 2, <<5>> >>, <<"srcSet", i, 2, <<>> >>, <<"srcDel", i, 1>> } ELSE {})
  \cup (IF x.outs # <<>> /\ Len(x.outs[1]) > 0 THEN { <<"outSet", i, 1, <<2>> >>, <<"outName", i, 1, "z">>, <<"outDel", i, 1>> } ELSE {})
  \cup (IF x.mats # <<>> /\ Len(x.mats[1]) = 2 THEN { <<"matAdd", i, 4, "new">>, <<"matName", i, 2, "y">> } ELSE {})
  \cup (IF x.sol # <<"w">> THEN { <<"solver", i, "w">> } ELSE {})
DOps(s) ==
  IF s = DInit THEN Builds ELSE
  DEdits(s, 0) \cup DEdits(s, 1)
  \cup { << c, j, k >> : c \in {"copy", "clone", "assign"}, k \in { a \in 0..1 : s[a + 1].on }, j \in 0..1 }
  \cup (IF s[1].on /\ s[2].on THEN { <<"drop", 0>>, <<"drop", 1>> } ELSE {})
=============================================================================
