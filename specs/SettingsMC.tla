----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Machine, Settings
CONSTANTS Level
Ks == IF Level = 1 THEN {"a", "b", "c"} ELSE {"a", "b", "c", "d"}
RECURSIVE Paths(_, _)
Paths(t, d) == { <<>> } \cup (IF d = 0 THEN {} ELSE UNION { { << IF t[1] = "d" THEN Names(t)[i] ELSE Index[i] >> \o p : p \in Paths(Kid(t, i), d - 1) } : i \in 1..Len(Kids(t)) })
Deep == IF Level = 1 THEN 1 ELSE 2
Places(s) == { << v, p >> : v \in 1..2, p \in Paths(s[1], Deep) \cup Paths(s[2], Deep) } 
Leaf == Txt(<<"v">>)
Plants == { Null, Txt(<<"u", "w">>), Dict(<< << "a", Leaf >>, << "b", Txt(<<"1">>) >>, << "c", Txt(<<"2">>) >> >>), Dict(<< << "b", Dict(<< << "a", Leaf >>, << "c", Null >> >>) >>, << "a", Arr(<< Leaf, Dict(<< << "a", Leaf >> >>) >>) >> >>),
            Arr(<< Leaf, Null, Dict(<< << "c", Txt(<<"2">>) >>, << "b", Leaf >> >>) >>), Dict(<< << "c", Null >>, << "a", Dict(<< << "a", Txt(<<"x y">>) >> >>) >>, << "b", Arr(<<>>) >> >>) }
Real(s) == { x \in Places(s) : Has(s[x[1]], x[2]) }
Size(t) == Len(Kids(t))
RECURSIVE Total(_)
Total(t) == 1 + FoldLeft(LAMBDA acc, x : acc + x, 0, [i \in 1..Size(t) |-> Total(Kid(t, i))])
OOps(s) ==
  IF s = OInit THEN { << "plant", a, b >> : a, b \in Plants } \ { << "plant", Null, Null >> }
  ELSE IF Total(s[1]) + Total(s[2]) > 14 THEN {} ELSE
  UNION { LET h == Get(s[x[1]], x[2]) IN
     { << "words", x[1], x[2], w >> : w \in { <<"v">>, <<"u", "w x">> } } \cup { << o, x[1], x[2] >> : o \in {"null", "object", "array"} }
     \cup { << "touch", x[1], x[2], k >> : k \in Ks } \cup { << "fill", x[1], x[2], k, <<"v">> >> : k \in Ks } \cup { << "push", x[1], x[2], <<"p">> >> }
     \cup { << "erase", x[1], x[2], k >> : k \in Ks } \cup { << "ask", x[1], x[2], k >> : k \in Ks } \cup { << "eraseAt", x[1], x[2], i >> : i \in 1..Size(h) }
     \cup { << "member", x[1], x[2], y[1], y[2], k >> : y \in { z \in Real(s) : Get(s[z[1]], z[2])[1] # "n" }, k \in {"a", "c"} }
     \cup { << o, x[1], x[2], y[1], y[2] >> : o \in {"value", "assign", "merge"}, y \in { z \in Real(s) : Get(s[z[1]], z[2])[1] # "n" } }
     \cup { << "take", x[1], x[2], y[1], y[2] >> : y \in { z \in Real(s) : (IF z[1] = x[1] THEN Len(z[2]) > Len(x[2]) /\ SubSeq(z[2], 1, Len(x[2])) = x[2] ELSE z[2] = <<>>) } }
   : x \in Real(s) }
  \cup { << "sum", v, <<>>, 2, <<>> >> : v \in 1..2 }
=============================================================================
