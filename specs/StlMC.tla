------------------------------- MODULE StlMC -------------------------------
EXTENDS Machine, Stl
CONSTANTS Level
Names == {"", "one", "facet"} \cup (IF Level > 1 THEN {"loop", "a-long_name.1"} ELSE {})
P == << <<0, 0, 0>>, <<4, 0, 0>>, <<0, -6, 0>>, <<1, 2, 3>> >>
Tris == { << P[a], P[b], P[c] >> : a \in 1..4, b \in 1..(IF Level = 1 THEN 2 ELSE 4), c \in 3..4 } 
Fs == { t \in Tris : Cardinality(ToSet(t)) = 3 } \cup { << P[1], P[2] >>, << P[1], P[2], P[3], P[4] >>, <<>> }
ZOps(s) ==
  IF s.cut # "" THEN (IF Level > 1 THEN { << "cut", "" >> } ELSE {}) ELSE
  (IF Len(s.solids) < 3 THEN { << "solid", n >> : n \in Names } ELSE {})
  \cup (IF s.solids = <<>> THEN {} ELSE { << "facet", f >> : f \in Fs } \cup { << "cut", c >> : c \in {"opened", "vertices", "number", "closed", "garbage"} } \cup { << "drop" >> })
  \cup { << "style", k >> : k \in 1..3 }
=============================================================================
