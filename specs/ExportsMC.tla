----------------------------- MODULE ExportsMC -----------------------------
EXTENDS Machine, Exports
CONSTANTS Level, Mode
R(i, p) == << i, "R", MapS(LAMBDA v : 64 * v, p), ZeroV >>
C(i, p) == << i, "I", p, ZeroV >>
Ly == << << 1, "a" >>, << 2, "b/c" >> >>
Cs == << R(1, <<0, 0, 0>>), R(2, <<4, 0, 0>>), R(3, <<4, 4, 0>>), R(4, <<0, 4, 0>>), R(5, <<0, 0, 4>>), R(6, <<4, 0, 4>>), R(7, <<4, 4, 4>>), R(8, <<0, 4, 4>>), R(9, <<0, 0, 0>>), R(10, <<2, 4001, 1>>) >>
\* one element of each kind, over shared points
Kinds == << << "Node", <<9>> >>, << "Line", <<1, 9>> >>, << "Poly", <<2, 1, 10, 4>> >>, << "Tri3", <<1, 2, 3>> >>, << "Tri6", <<1, 2, 3, 4, 5, 6>> >>, << "Qua4", <<4, 3, 2, 1>> >>,
            << "Tet4", <<1, 2, 4, 5>> >>, << "Tet10", <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>> >>, << "Hex8", <<1, 2, 3, 4, 5, 6, 7, 8>> >> >>
GG == << <<0, 64, 128>>, <<0, 128>>, <<-64, 0>> >>
ICs == << C(1, <<0, 0, 0>>), C(2, <<2, 0, 0>>), C(3, <<2, 1, 0>>), C(4, <<0, 1, 0>>), C(5, <<0, 0, 1>>), C(6, <<2, 0, 1>>), C(7, <<2, 1, 1>>), C(8, <<0, 1, 1>>), << 9, "C", <<1, 0, 0>>, <<0, 1, 0>> >>, << 10, "L", <<0, 0, 0>>, <<2, 1, 0>> >> >>
IKinds == << << "Node", <<10>> >>, << "Line", <<1, 2>> >>, << "LConf", <<9, 9>> >>, << "Poly", <<1, 2, 3>> >>, << "Qua4", <<1, 2, 3, 4>> >>, << "Hex8", <<1, 2, 3, 4, 5, 6, 7, 8>> >> >>
Mats == << << << 2, "m" >>, << 1, "n" >> >> >>
Same2 == << << << 2, "m" >>, << 1, "m" >> >> >>
Src(k) == IF k = "Node" THEN << << <<"gen", <<7>> >>, <<"gen", <<7>> >> >> >> ELSE IF k \in {"Line", "Poly"} THEN << << <<"line", <<7>> >> >> >> ELSE IF k \in {"Hex8", "Tet4"} THEN << << <<"pw", <<7>> >>, <<"dip", <<>> >> >> >> ELSE << <<>> >>
Out == { << << <<"elem", "o", <<7>> >> >> >>, <<>> }
M1(k, q, l, a) == IF k \in DOMAIN q THEN << << 7, q[k][1], q[k][2], l, a >> >> ELSE <<>>
UMesh(es) == << "U", <<>>, Cs, es, Ly >>
SMesh(es) == << "S", GG, ICs, es, Ly >>
B(m, a, b, c, d) == << "build", 0, m, a, b, c, d >>
Two(a, b, q, mat) == << << 7, q[a][1], q[a][2], 1, mat >>, << 3, q[b][1], q[b][2], 1, mat >> >>
Bare == << <<>> >>
\* the material of an element: one of those there are
With(z) == { y \in z : y[1] = Bare => y[2] = 0 }
Builds ==
  { B(UMesh(M1(k, Kinds, l, y[2])), y[1], Src(Kinds[k][1]), o, <<>>) : k \in 1..9, l \in 0..2, y \in With({Mats, Bare} \X (IF Level = 1 THEN {0, 2} ELSE 0..2)), o \in Out }
  \cup { B(SMesh(M1(k, IKinds, l, y[2])), y[1], Src(IKinds[k][1]), o, <<>>) : k \in 1..6, l \in 0..2, y \in With({Mats, Bare} \X {0, 2}), o \in Out }
  \cup { B(UMesh(Two(j, k, Kinds, 2)), Same2, <<>>, << << <<"elem", "o", <<7>> >>, <<"elem", "o", <<3, 7>> >> >> >>, <<>>) : j \in 1..9, k \in 1..9 }
  \cup { B(SMesh(Two(j, k, IKinds, 2)), Same2, <<>>, << << <<"elem", "p&q", <<3>> >> >> >>, <<>>) : j \in 1..6, k \in 1..6 }
  \cup { B(UMesh(Two(4, 6, Kinds, 0)), <<>>, <<>>, <<>>, <<>>), B(<<>>, Mats, <<>>, <<>>, <<>>) }
XOps(x) ==
  IF ~x.d.on THEN Builds
  ELSE { << n, 0, "case" >> : n \in {"vtk", "gid"} }
       \cup (IF x.d.mesh.k = "S" THEN { << "bound", 0, a, p, k >> : a \in 0..2, p \in 0..1, k \in (IF Level = 1 THEN {1} ELSE {1, 2}) } ELSE {})
       \cup (IF x.f = <<>> /\ x.d.mesh.k # "-" THEN { << "factor", 0, 2, 1 >>, << "factor", 0, 1, 4 >>, << "factor", 0, 0, 1 >> } ELSE {})
=============================================================================
