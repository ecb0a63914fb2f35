------------------------------ MODULE WiresMC ------------------------------
EXTENDS Machine, Wires
CONSTANT Level
Mats == IF Level = 2 THEN {1, 2, 3, 5, 6, 7} ELSE {1, 3, 5}
NewId(s) == << 7, 3, 9, 4, 1 >>[Len(s.ls) + 1]
Pairs == { << a, b >> \in (1..4) \X (1..4) : a # b }
\* the first line fixes the names of two coordinates; the others touch what is there
WOps(s) ==
  IF s.ls = <<>> THEN { << "line", 7, 1, 2, m, 0 >> : m \in Mats } \cup (IF s.kind = "R" THEN { <<"kind", "I">> } ELSE {})
  ELSE { << "line", NewId(s), p[1], p[2], m, l >> : m \in Mats, l \in (IF Len(s.ls) = 1 THEN {0, 1} ELSE {0}),
           p \in { p \in Pairs : ({ p[1], p[2] } \cap Coords(s.ls) # {} \/ Used(s.ls) = {}) /\ \A i \in DOMAIN s.ls : ~(s.ls[i][2] = p[1] /\ s.ls[i][3] = p[2]) } }
=============================================================================
