----------------------------- MODULE ElementsMC -----------------------------
EXTENDS Machine, Elements
CONSTANTS Kinds, MaxE
Rs(k) == IF k = "M" THEN {"R", "I"} ELSE {k}
Shapes(r) == { <<"Line", <<1, 2>>>>, <<"Line", <<2, 1>>>>, <<"Node", <<5>>>>, <<"Qua4", <<2, 5, 8, 11>>>>, <<"Poly", <<2, 6, 1>>>> }
             \cup (IF r = "R" THEN { <<"Tri3", <<1, 2, 8>>>> } ELSE {})
EOps(s) ==
  IF s.kind = "none" THEN { <<"kind", k>> : k \in Kinds } ELSE
  LET n == Len(s.es) IN
  (IF n < MaxE THEN UNION { { <<"push", sh[1], r, sh[2], l[1], l[2]>> : sh \in Shapes(r), l \in {<<0, 1>>, <<1, 2>>, <<2, 0>>} } : r \in Rs(s.kind) } ELSE {})
  \cup (IF n = 0 THEN {} ELSE
     { <<"mats", <<2, 0, 2>>>>, <<"layers", <<1, 2>>>>, <<"layers", <<>>>>, <<"inside", <<-1, -1, -1>>, <<3, 2, 2>>>>, <<"inside", <<0, 0, 0>>, <<2, 0, 0>>>>,
       <<"index">>, <<"closest", <<3, 1, 0>>>>, <<"closest", <<5, 0, 3>>>>, <<"copyGroup">>,
       <<"setModelAll", 3>>, <<"setLayerAll", 0>>, <<"setModel", 2, 1>>, <<"setLayer", 1, 3>>, <<"setModel", 4, 2>>,
       <<"removeMat", 1>>, <<"removeMats", <<0, 2>>>>, <<"removeIds", <<2, 2, 7>>>> }
     \cup { <<"lexi", i>> : i \in 1..n }
     \cup { <<"eq", i, c[1], c[2]>> : i \in 1..n, c \in {<<"layer", 1>>, <<"mat", 2>>, <<"id", 1>>, <<"coord", 2>>} }
     \cup { <<"eq", i, "other", j>> : i \in 1..n, j \in 1..n }
     \cup { <<"isCoord", i, k>> : i \in 1..n, k \in {2, 6} }
     \cup { <<"setV", i, 1, 4>> : i \in 1..n })
=============================================================================
