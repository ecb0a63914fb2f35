------------------------------ MODULE HelpsMC -------------------------------
EXTENDS Machine, Helps
CONSTANT Level
Root == << 0, "", "", FALSE, FALSE >>
Trees == { << Root >>, << Root, << 1, "Files", "", FALSE, FALSE >> >>, << Root, << 1, "", "", TRUE, TRUE >> >>,
           << Root, << 1, "Runs", "what is run and how it is done", FALSE, FALSE >>, << 2, "", "", TRUE, FALSE >> >> }
Long == "every run of ${PROG} reads what was asked for and writes, unless told not to, one of ${CHOICES} and then ${DEFAULT} again"
Texts == { "", "short", Long } \cup (IF Level = 1 THEN {} ELSE { "${DEFAULT}", "${CHOICES}", "${PROG}" })
A(g, k, n, h) == << g, k, n, IF k \in {"pos", "mpos"} \/ g = 3 THEN "" ELSE Char(n, 1), IF k \in {"pos", "mpos"} THEN "" ELSE n, k = "opt" /\ g = 1, h,
                    IF h = "short" THEN << "X", "yy" >> ELSE <<>>, IF k \in {"switch", "mswitch"} THEN <<>> ELSE << "a", "bb" >>, IF k \in {"switch", "mswitch"} THEN <<>> ELSE << << "a", "bb" >>, << "c", "d" >> >> >>
Kinds == {"pos", "mpos", "opt", "mopt", "switch", "mswitch"}
HOps(s) == { << w, "prog", u, d, e, t, q >> : w \in {"usage", "help"}, u \in { "", "use ${PROG} well" }, d \in {"", Long}, e \in {"", "the end of ${PROG}"},
             t \in Trees, q \in { <<>> } }
  \cup UNION { { << w, "some-program", "", "", "", t, << A(Len(t), k, "alpha", h) >> >> : w \in {"usage", "help"}, k \in Kinds, h \in Texts } : t \in Trees }
  \cup UNION { { << w, "p", "", "d", "", t, << A(g, k, "alpha", h), A(Len(t), j, "beta", "short") >> >> : w \in {"usage", "help"}, g \in 1..Len(t), k \in Kinds, j \in Kinds, h \in {"", Long} } : t \in Trees }
  \cup { << w, "p", "", "", "", t, [i \in 1..n |-> A(1, k, Char(Lower, i) \o "lpha", "")] >> : w \in {"usage", "help"}, k \in {"pos", "mswitch"}, n \in 3..(IF Level = 1 THEN 12 ELSE 20), t \in { << Root >> } }
=============================================================================
