------------------------------ MODULE BoundsMC ------------------------------
EXTENDS Machine, Bounds
CONSTANTS Level
Few == IF Level = 1 THEN {"PEC", "Mur2", "-"} ELSE Conditions \cup {"-"}
All1 == { << "PEC", "PMC", "PML", "Periodic", "Mur1", "Mur2" >>, << "-", "SMA", "-", "PEC", "-", "-" >> }
Grids == { << <<0, 1>>, <<0, 2, 3>>, <<-1, 4>> >>, << <<1, 3, 4>>, <<-2, 5>>, <<2, 3>> >> }
Bad == {"SMA", "pec", "Mur1", ""}
NOps(s) ==
  UNION { { << "set", r, d, p, k >> : d \in 0..2, p \in 0..1, k \in Few } : r \in {0, 2} \cup (IF s[4].c = "mesh" THEN {3} ELSE {}) }
  \cup { << n, 0, a >> : n \in {"all", "new"}, a \in All1 } \cup { << "from", r, q >> : r \in {0, 1}, q \in {0, 1, 2} }
  \cup { << "label", 2, k, l >> : k \in 1..6, l \in DOMAIN Labels \cup Bad }
  \cup { << "labels", 2, a >> : a \in { << "PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2" >>, << "MUR1", "", "", "MUR2", "", "PEC" >> } }
  \cup { << "mesh", 3, g, r >> : g \in Grids, r \in 0..2 } \cup { << "drop", r >> : r \in {0, 2} }
  \cup (IF s[4].c = "mesh" THEN { << "faces", 3 >>, << "lines", 3 >>, << "scale", 3, 2 >>, << "drop", 3 >>, << "copy", 4, 3 >>, << "clone", 4, 3 >>, << "from", 0, 3 >>, << "from", 3, 1 >> } ELSE {})
  \cup (IF s[4].c = "mesh" /\ s[5].c = "mesh" THEN { << "assign", 4, 3 >>, << "assign", 3, 4 >>, << "faces", 4 >> } ELSE {})
=============================================================================
