------------------------------ MODULE EnlargeMC ------------------------------
EXTENDS Machine, Enlarge
CONSTANT Level
Axes == { <<0, U>>, <<0 - U, 0, 2 * U>>, <<0 - (U \div 2), U \div 2, U, 4 * U>> }
PadSet == { 0, U \div 2, U, 3 * U, (3 * U) + (U \div 16) } \cup (IF Level = 1 THEN {} ELSE {5 * U, (7 * U) \div 2, 12 * U})
SizSet == { 0, U \div 2, U, 2 * U } \cup (IF Level = 1 THEN {} ELSE {(3 * U) \div 2, 4 * U})
LOps(s) ==
  IF ~s.set THEN { <<"setPos", <<a, b, <<0, U>>>> >> : a \in Axes, b \in Axes }
  ELSE { <<"bound", d, b, p, z>> : d \in 0..1, b \in 0..1, p \in PadSet, z \in SizSet }
       \cup { <<"enlarge", <<p, 0, U>>, <<z, U, U>>, <<v, p, 0>>, <<z, z, 0>> >> : p \in PadSet, z \in SizSet, v \in PadSet }
=============================================================================
