----------------------------- MODULE SampledMC -----------------------------
EXTENDS Machine, Sampled
CONSTANTS Level
Is == IF Level = 1 THEN 0..1 ELSE 0..2
Fs == IF Level = 1 THEN {0} ELSE 0..1
Lins == { <<>>, << <<0, 3>> >>, << <<4, 1>>, <<0, -3>>, <<4, 9>> >>, << <<2, 5>>, <<0, 0>>, <<8, 1>>, <<5, -1>> >> }
Texts == { <<>>, << <<0>>, <<2>>, <<4>>, <<5>>, <<6>> >>, << <<3>>, <<1>>, <<3>>, <<2>>, <<1>>, <<0>> >>, << <<0>>, <<2>>, <<2>>, <<3>>, <<>>, <<4>>, <<4>>, <<1>> >> }
VOps(s) == { op \in
  { << "file", f, t, b >> : f \in Fs, t \in Texts, b \in BOOLEAN } \cup { << "rmfile", f >> : f \in Fs }
  \cup { << "lin", i, p >> : i \in Is, p \in Lins } \cup { << n, i, f >> : n \in {"linfile", "num"}, i \in Is, f \in Fs \cup {2} }
  \cup { << n, i, j >> : n \in {"mag", "copy", "assign"}, i, j \in Is }
  \cup { << n, i >> : n \in {"mag0", "num0", "drop"}, i \in Is }
  \cup { << "conv", i, j, f, x[1], x[2], v >> : i, j \in Is, f \in Fs, x \in { <<1, 9>>, <<2, 9>>, <<3, 2>>, <<0, 1000>> }, v \in 0..2 } : VCan(s, op) }
  \cup IF s # VInit THEN {} ELSE
  { << "gauss", x, y >> : x, y \in { <<1, 2, 0>>, <<1, 2, 3>>, <<1, 3, 0>>, <<2, 2, 0>> } } \cup { << "band", a, b, c, d >> : a, b \in -1..3, c \in 1..2, d \in {3} } \cup { << "upto", m >> : m \in -1..3 }
=============================================================================
