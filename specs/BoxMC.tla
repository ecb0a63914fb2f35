-------------------------------- MODULE BoxMC --------------------------------
EXTENDS Machine, Box
CONSTANT Level
Pts == { <<0, 0, 0>>, <<1, 0, 0>>, <<0, 2, 1>>, <<1, 2, 1>>, <<3, 1, 3>>, <<-1, 1, 1>> } \cup (IF Level = 1 THEN {} ELSE { <<2, 2, 2>>, <<0, 2, 3>>, <<-2, -1, 0>> })
BOps(s) ==
  IF s.kind = "none" THEN { <<"kind", "R">>, <<"kind", "I">> }
  ELSE IF Empty(s.A) THEN { << n, "A", p, q >> : n \in {"set", "ctor", "pair"}, p \in Pts, q \in Pts } \cup { <<"point", "A", <<1, 2, 1>>>> }
  ELSE { << "set", "B", p, q >> : p \in Pts, q \in Pts } \cup { <<"point", r, p>> : r \in {"A", "B"}, p \in Pts } \cup { <<"empty", "A">>, <<"assign">>, <<"join">>, <<"extend">> }
    \cup { <<"scale", 3>>, <<"pos">>, <<"axis">> } \cup { <<"inside", p>> : p \in Pts } \cup { <<"face", d, u>> : d \in 0..2, u \in 0..1 }
    \cup { <<"chop", w>> : w \in { <<1, 1, 1>>, <<2, 1, 2>>, <<3, 5, 0>>, <<-1, 2, 3>> } }
    \cup { <<"chopGrid", << <<-4, 0, 1, 5>>, <<-1, 1, 3>>, <<-9, 9>> >> >>, <<"chopGrid", << <<-2, -1, 0, 1, 2, 3>>, <<0, 1>>, <<2, 3>> >> >> }
    \cup (IF Empty(s.B) THEN {} ELSE { <<"rel">> } \cup (IF Meet(s.A, s.B) THEN { <<"inter">> } ELSE {}))
=============================================================================
