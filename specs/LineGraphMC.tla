---------------------------- MODULE LineGraphMC ----------------------------
EXTENDS Machine, LineGraph
CONSTANT Level
\* up to three (four) lines over four coordinates
Ends == { << a, b >> \in (1..4) \X (1..4) : a # b /\ (Level = 2 \/ a < b \/ a = 4) }
Ln(i, p) == << i, p >>
Sets == { << Ln(3, p) >> : p \in { <<1, 2>> } } \cup { << Ln(3, p), Ln(7, q) >> : p \in { <<1, 2>> }, q \in Ends }
        \cup { << Ln(3, p), Ln(7, q), Ln(5, r) >> : p \in { <<1, 2>>, <<2, 1>> }, q \in Ends, r \in Ends }
        \cup { << Ln(3, <<1, 2>>), Ln(7, <<2, 3>>), Ln(5, q), Ln(4, <<2, 4>>) >> : q \in Ends }
Others == { << << 1, <<1, 2, 3>> >>, << 2, <<3, 4, 5>> >>, << 9, <<6>> >>, << 4, <<1, 5, 6, 7>> >>, << 5, <<8, 9, 8>> >> >>, <<>> }
Lines(g) == \A e \in DOMAIN g.els : Len(g.els[e].b) = 2
GOps(s) ==
  { << "init", 0, es >> : es \in IF s = GInit THEN Sets \cup Others ELSE { << Ln(2, <<1, 3>>), Ln(1, <<3, 2>>) >> } }
  \cup { << "comps", 0 >> }
  \cup UNION { IF Lines(s[i + 1]) THEN { << "split", i, b - 1 >> : b \in DOMAIN s[i + 1].bs } ELSE {} : i \in 0..1 }
  \cup { <<"copy", 1, 0>>, <<"assign", 1, 0>>, <<"assign", 0, 1>>, <<"assign", 0, 0>> }
=============================================================================
