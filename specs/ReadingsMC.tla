----------------------------- MODULE ReadingsMC -----------------------------
EXTENDS Machine, Readings
CONSTANTS Level
A == {"0", "1", "9", ".", "e", "-", " "} \cup (IF Level > 1 THEN {"+", "x", "2"} ELSE {"x"})
Len4 == IF Level = 1 THEN 4 ELSE 5
Ws(n) == UNION { [1..k -> A] : k \in 0..n }
Big == { <<"2","1","4","7","4","8","3","6","4","7">>, <<"2","1","4","7","4","8","3","6","4","8">>, <<"-","2","1","4","7","4","8","3","6","4","7">>, <<"-","2","1","4","7","4","8","3","6","4","9">>, <<"2","1","4","7","4","8","3","6","4","7",".","5">>,
         <<"2","1","e","8">>, <<"2","2","e","8">>, <<"2","1","4","7","4","e","5">>, <<"2","1","4","7","5","e","5">>, <<"1","e","9","9">>, <<"1","e","-","9","9">>, <<"-","1","e","-","9">>, <<"0","0","0","0","0","0","0","0","0","0","0","1">>, <<"9","9","9","9","9","9","9","9","9","9","9">> }
ROps(s) == IF s # RInit THEN {} ELSE
  { << "words", << w >> >> : w \in Ws(Len4) \cup Big } \cup { << "words", << v, w >> >> : v, w \in Ws(2) } \cup { << "int", n >> : n \in {0, 7, -13, 2147483647} }
  \cup { << "bool", b >> : b \in BOOLEAN } \cup { << k >> : k \in {"null", "object", "array"} } \cup { << "pair", n, w >> : n \in {1, -20}, w \in Ws(1) \cup {<<"a", " ", "b">>} }
=============================================================================
