------------------------------ MODULE CoordsMC ------------------------------
EXTENDS Machine, Coords
CONSTANTS MaxC, XS
PP == { <<x, 0, 0>> : x \in XS }
Uni == << <<-8,0,0>>, <<-4,0,0>>, <<0,0,0>>, <<4,0,0>>, <<8,0,0>>, <<2,0,0>>, <<0,4,0>>, <<-2,0,0>> >>
KOps(s) ==
  IF s.uni = <<>> THEN { <<"universe", Uni>> } ELSE
  LET n == Len(s.cs) IN
  (IF n < MaxC /\ s.n < MaxC + 1 THEN
       { <<"addPos", k, p, o>> : k \in {"R", "I"}, p \in PP, o \in {0, 1} }
       \cup { <<"addPosDef", k, p>> : k \in {"R", "I"}, p \in PP } ELSE {})
  \cup (IF n + 2 <= MaxC /\ s.n < MaxC THEN
       { <<"addPosV", k, <<p, q>>, o>> : k \in {"R", "I"}, p \in PP, q \in PP, o \in {0, 1} }
       \cup { <<"add", << <<k, i, p>> >> >> : k \in {"R", "I", "L"}, i \in {1, 3}, p \in PP }
       \cup { <<"add", << <<k, 2, p>>, <<"C", j, p>> >> >> : k \in {"R", "C"}, j \in {0, 1, 2}, p \in PP } ELSE {})
  \cup (IF s.n < MaxC THEN { <<"assignRaw", << <<k, 3, p>>, <<"R", j, p>> >>, m>> : k \in {"R", "I"}, j \in {1, 3}, p \in PP, m \in {0, 1} }
       \cup { <<"construct", k, <<p, p>> >> : k \in {"R", "I"}, p \in PP } ELSE {})
  \cup (IF s.n <= MaxC THEN { <<"set", i, <<k, j, p>> >> : i \in 1..n, k \in {"R", "I"}, j \in {2, 5}, p \in PP } \cup {<<"clone">>} ELSE {})
  \cup { <<"copy">>, <<"moved">>, <<"clear">> }
  \cup { <<"remove", <<i>> >> : i \in 1..n } \cup { <<"remove", <<i, j>> >> : i \in 1..n, j \in 1..n }
  \cup { <<"removeId", <<i, 9>> >> : i \in 1..2 }
  \cup (IF \A i \in 1..n : s.cs[i].k = "R" => \A j \in 1..3 : s.cs[i].p[j] \in {-4, 0, 4} THEN
          { <<"scale", f, g>> : f \in {-1}, g \in {1, 2} } \cup { <<"scale", 0, 1>>, <<"scale", 2, 1>> } ELSE {})
=============================================================================
