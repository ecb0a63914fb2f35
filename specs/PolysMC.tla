------------------------------ MODULE PolysMC ------------------------------
EXTENDS Machine, Polys
CONSTANTS Level
Is == IF Level = 1 THEN 0..1 ELSE 0..2
IOps(s) == { op \in
  { << "new", i, n >> : i \in Is, n \in 1..2 } \cup { << "add", i, w, v >> : i \in Is, w \in { <<0>>, <<1>>, <<2>>, <<0, 0>>, <<1, 0>>, <<0, 2>> }, v \in {-1, 0, 2} }
  \cup { << n, i, j, k >> : n \in {"mul", "ext"}, i, j, k \in Is } \cup { << n, i, j >> : n \in {"imul", "iext", "copy", "assign"}, i, j \in Is }
  \cup { << "div", i, d >> : i \in Is, d \in {2, -1} } \cup { << "der", i, d >> : i \in Is, d \in 0..1 } \cup { << n, i >> : n \in {"rz", "tomat"}, i \in Is }
  \cup { << "vec", i, v >> : i \in Is, v \in { <<>>, <<1>>, <<0, 2, 0, 1>> } } \cup { << "mat", i, m >> : i \in Is, m \in { << <<1>>, <<0>>, <<3>> >>, << <<0, 1>>, <<2, -1>> >> } } : ICan(s, op) }
=============================================================================
