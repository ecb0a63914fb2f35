------------------------------ MODULE ModelsMC ------------------------------
EXTENDS Machine, Models
CONSTANTS Level, Mode
New(r, k, i, n, a) == << "new", r, k, i, n, a >>
Turns == IF Level = 1 THEN 0..3 ELSE -2..5
Eulers == { << a, b, c >> : a \in Turns, b \in Turns, c \in Turns }
Poles == { <<>>, << <<0, 0, 4, 0>> >>, << <<-2, 3, 1, -1>> >>, << <<-2, 3, 1, -1>>, <<0, 0, 6, 0>> >>, << <<0, 0, 0, 2>>, <<-4, 0, 2, 2>> >> }
Layers == { <<2, 2, 2, 0>>, <<3, 0, 2, 1>>, <<1, 4, 0, 0>>, <<0, 5, 3, 7>> }
Z1 == << 2, 0, 1, -1, 1, 1, 4, 0 >>
Z2 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
News ==
  CASE Mode = "simple" ->
         { New(1, k, 3, n, <<>>) : k \in Pred, n \in {"", "metal"} } \cup { New(1, k, 5, "", <<>>) : k \in Bounds } \cup { New(1, "Gap", 2, "gap", << w >>) : w \in 0..3 }
         \cup { New(1, "Classic", 1, "c", a) : a \in { <<>>, <<4>>, <<4, 6>>, <<2, 2, 1>> } \cup { << e, m, se, sm >> : e \in {-2, 0, 1, 2, 8}, m \in {0, 2, 3}, se \in {0, 1}, sm \in {0, 3} } }
         \cup { New(1, "Dispersive", 4, "d", << e, 2, se, sm, p >>) : e \in {2, 5}, se \in {0, 1, 8}, sm \in {0, 2}, p \in Poles } \cup { New(1, "DispFile", 6, "f", << f >>) : f \in Files \cup {"missing.txt"} }
    [] Mode = "axes" ->
         { New(1, "PML", 1, "pml", e \o o) : e \in Eulers, o \in { <<0, 0, 0>>, <<3, -1, 2>> } }
         \cup { New(1, "Crystal", 2, "k", e \o << 1, 2, 3 >> \o x) : e \in Eulers, x \in { <<2, 4, 6, 8>>, <<3, 3, 5, 2>> } }
         \cup { New(1, "Ferrite", 3, "f", e \o << 0, 0, 0 >> \o x) : e \in Eulers, x \in { <<3, 4, 6>>, <<-1, 2, 9>> } }
    [] Mode = "surface" ->
         { New(1, "Multilayer", 7, "ml", << l, o >>) : l \in { <<>> } \cup { << a >> : a \in Layers } \cup { << a, b >> : a \in Layers, b \in Layers }, o \in { <<>>, << <<1, 8, 3>> >>, << <<1, 8, 3>>, <<2, 4, 2>> >> } }
         \cup { New(1, "SIBC", 8, "z", << a, b, p >>) : a \in {Z1, Z2}, b \in {Z1, Z2}, p \in { <<>>, << << -3, 2, Z1 >> >>, << << -1, 0, Z2 >>, << -3, 2, Z1 >> >> } }
         \cup { New(1, "SIBCFile", 9, "s", f) : f \in { << "a.mibc", ".mibc" >>, << "a.MIBC", ".MIBC" >>, << "a.mibc.txt", ".txt" >>, << "dir/b.x.mibc", ".mibc" >>, << "mibc", "" >> } }
    [] Mode = "wire" ->
         { New(1, "WireRL", 11, "w", << 1, 2, 3 >>), New(1, "WireRLC", 12, "x", << 1, 2, 3, 4, 5, 6, 7 >>), New(1, "WireFile", 13, "y", << 4, "w.dat" >>) }
         \cup { New(2, "MPre", 21, "p", << t >>) : t \in 0..3 } \cup { New(2, "MRLC", 22, "q", << t, 1, 2, 3 >>) : t \in {11, 18} } \cup { New(2, "MDisp", 23, "", << "m.dat" >>) }
IsW(m) == m.k \in Wires
IsP(m) == m.k \in Ports
YOps(s) ==
  LET R == IF Mode = "wire" THEN 1..4 ELSE {1} IN
  { o \in News : s[o[2]].k = "-" /\ (Mode # "wire" \/ o[2] = 1 \/ s[1].k # "-") }
  \cup UNION { IF s[i].k = "-" THEN {} ELSE
      { << n, 4, i >> : n \in {"clone", "copy"} } \cup { <<"name", i, "z">>, <<"id", i, 40>>, <<"drop", i>> } : i \in R }
  \cup (IF s[4].k # "-" /\ s[4].k = s[1].k /\ s[1].k # "PML" THEN { <<"assign", 1, 4>>, <<"assign", 4, 1>>, <<"assign", 1, 1>> } ELSE {})
  \cup (IF Mode = "wire" THEN
        UNION { IF ~IsW(s[i]) THEN {} ELSE { << "ends", 3, "e", i, l, r >> : l \in { q \in 0..4 : q = 0 \/ IsP(s[IF q = 0 THEN 1 ELSE q]) }, r \in { q \in 0..4 : q = 0 \/ IsP(s[IF q = 0 THEN 1 ELSE q]) } } : i \in {1, 3} }
        \cup UNION { IF s[i].k # "Extremes" THEN {} ELSE { << "end", i, e, "own", o >> : e \in 0..1, o \in 0..1 } \cup { << "end", i, e, "none" >> : e \in 0..1 } \cup { << "swap", i >> }
              \cup UNION { IF IsP(s[q]) THEN { << "end", i, e, "reg", q >> : e \in 0..1 } ELSE {} : q \in {2, 4} } : i \in 3..4 }
        \cup (IF s[4].k # "-" /\ s[4].k = s[3].k THEN { <<"assign", 3, 4>>, <<"assign", 4, 3>>, <<"assign", 3, 3>> } ELSE {})
        ELSE {})
=============================================================================
