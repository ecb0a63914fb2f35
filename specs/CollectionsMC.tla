--------------------------- MODULE CollectionsMC ---------------------------
EXTENDS Machine, Collections
CONSTANTS Kinds, MaxObjs, MaxLen, Ids_, Level
Lists(X) == { <<>> } \cup { <<x>> : x \in X } \cup { <<x, y>> : x \in X, y \in X }
Room(st, k) == Len(st.objs) + k <= MaxObjs
CPos(st, r) == Len(Members(st, r))
PosLists(n) == { <<>> } \cup { <<i>> : i \in 1..n } \cup { <<i, j>> : i \in 1..n, j \in 1..n }
PairsOf(T) == { <<t, i>> : t \in T, i \in Ids_ }
COps(st) ==
  IF st.kind = "none" THEN { <<"kind", k>> : k \in Kinds }
  ELSE UNION { LET n == CPos(st, r) m == CPos(st, Other(r)) IN
     (IF Room(st, 2) /\ n + 2 <= MaxLen
        THEN { <<"add", r, l>> : l \in Lists(PairsOf({0, 2})) }
             \cup { <<"addId", r, l>> : l \in { <<0>>, <<3, 1>> } } ELSE {})
     \cup (IF n + m <= MaxLen THEN { <<"share", r, l>> : l \in PosLists(m) } ELSE {})
     \cup { <<"assign", r>>, <<"copy", r>>, <<"move", r>>, <<"clear", r>>, <<"getIds", r>> }
     \cup (IF Room(st, m) THEN { <<"clone", r>> } ELSE {})
     \cup (IF Room(st, 2) THEN { <<"construct", r, l>> : l \in { <<<<1, 2>>, <<0, 1>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<0, 0>>>> } }
             \cup { <<"assignRaw", r, l>> : l \in { <<<<1, 2>>, <<3, 1>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<0, 2>>, <<0, 0>>>> } } ELSE {})
     \cup { <<"remove", r, l>> : l \in PosLists(n) \ {<<>>} }
     \cup { <<"removeId", r, l>> : l \in { <<1>>, <<2>>, <<3, 1>>, <<>> } }
     \cup (IF Room(st, 1) THEN { <<"set", r, p, t, i>> : p \in 1..n, t \in {2}, i \in Ids_ } ELSE {})
     \cup { <<"mark", r, p, 1>> : p \in 1..n }
     \cup { <<"get", r, l>> : l \in PosLists(n) }
     \cup { <<"getId", r, l>> : l \in { <<1>>, <<3>>, <<2, 1>> } }
   : r \in {"A", "B"} }
=============================================================================
