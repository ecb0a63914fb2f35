------------------------------- MODULE ArgsMC -------------------------------
EXTENDS Machine, Args
CONSTANTS Level, Mode
L(t) == [k \in 1..Len(t) |-> SubSeq(t, k, k)]
Arg(g, kind, name, sh, lg, types, req, def, ch) == << "arg", g, kind, name, sh, L(lg), types, req, def, ch >>
\* definitions
Forms == { << "a", "" >>, << "", "aa" >>, << "a", "aa" >>, << "b", "aa" >>, << "a", "ab" >>, << "", "" >>, << "1", "a1" >>, << "b", "aab" >> }
DefOps(s) ==
  UNION { { Arg(g, k, n, f[1], f[2], <<"i">>, FALSE, <<>>, <<>>) : k \in (IF Level = 1 THEN {"opt"} ELSE {"opt", "switch"}), n \in {"x", "y"}, f \in Forms }
          \cup { Arg(g, "pos", n, "", "", <<"s">>, FALSE, <<>>, <<>>) : n \in {"x", "y"} }
          \cup (IF s.gs[g].me THEN {} ELSE { << "group", g, n >> : n \in {"x", "g"} } \cup { << "exclusive", g, FALSE >> }) : g \in 1..Len(s.gs) }
  \cup (IF s.as = <<>> THEN { << "none", 1, b >> : b \in BOOLEAN } ELSE {})
\* command lines
N(g, k, name, sh, lg, ty) == Arg(g, k, name, sh, lg, ty, FALSE, <<>>, <<>>)
Schemas == <<
  << N(1, "opt", "A", "a", "alpha", <<"i">>), N(1, "switch", "V", "v", "", <<>>), N(1, "pos", "P", "", "", <<"s">>) >>,
  << N(1, "mopt", "A", "a", "alpha", <<"i">>), N(1, "mswitch", "V", "v", "alt", <<>>) >>,
  << Arg(1, "opt", "A", "a", "alpha", <<"i", "s">>, TRUE, <<>>, <<>>), Arg(1, "pos", "P", "", "", <<"i">>, FALSE, << "9" >>, <<>>), N(1, "switch", "V", "v", "beta", <<>>) >>,
  << Arg(1, "opt", "A", "", "alpha", <<"s">>, FALSE, << "dd" >>, << << "x" >>, << "5" >> >>), N(1, "switch", "V", "b", "alt", <<>>), N(1, "pos", "P", "", "", <<"i">>), N(1, "pos", "Q", "", "", <<"s">>) >>,
  << << "group", 1, "G" >>, N(2, "opt", "A", "a", "alpha", <<"i">>), N(2, "pos", "P", "", "", <<"s">>), N(1, "pos", "Q", "", "", <<"s">>), Arg(1, "switch", "A", "v", "", <<>>, FALSE, << "1" >>, <<>>) >>,
  << << "exclusive", 1, TRUE >>, N(2, "opt", "A", "a", "alpha", <<"i">>), N(2, "switch", "V", "v", "", <<>>), Arg(1, "pos", "P", "", "", <<"s">>, FALSE, << "d" >>, <<>>) >>,
  << << "exclusive", 1, FALSE >>, N(2, "opt", "A", "a", "alpha", <<"v">>), N(2, "pos", "P", "", "", <<"i">>), Arg(2, "switch", "V", "v", "", <<>>, TRUE, << "0" >>, <<>>) >>,
  << << "group", 1, "G" >>, << "exclusive", 2, FALSE >>, N(3, "mopt", "A", "a", "alpha", <<"s">>), N(3, "mswitch", "V", "v", "", <<>>), Arg(2, "opt", "B", "b", "", <<"i", "i">>, FALSE, << "1", "2" >>, << << "1", "*" >>, << "5", "5" >> >>) >>,
  << N(1, "opt", "A", "a", "alpha", <<"v", "s">>), Arg(1, "mswitch", "V", "v", "al", <<>>, FALSE, << "3" >>, <<>>), Arg(1, "switch", "B", "b", "", <<>>, TRUE, <<>>, <<>>) >>
>>
Words == { L(w) : w \in {"-a", "-a5", "-v", "-va", "-q", "-qav", "--alpha", "--alpha=5", "--al", "--zz", "--zz=1", "5", "-5", "x", "--"} \cup (IF Level = 1 THEN {} ELSE {"-vv", "-b", "-ab5v", "--alt", "--alpha=", "5 5", "5x5x", "", "--b"}) }
RECURSIVE Lines(_)
Lines(n) == IF n = 0 THEN { <<>> } ELSE LET l == Lines(n - 1) IN l \cup { Append(q, w) : q \in { z \in l : Len(z) = n - 1 }, w \in Words }
UOps(s) == IF Mode = "define" THEN DefOps(s)
           ELSE IF s = UInit THEN { << "define", Schemas[k] >> : k \in 1..Len(Schemas) } ELSE { << "parse", l, b >> : l \in Lines(3), b \in {FALSE} }
=============================================================================
