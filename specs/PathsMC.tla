------------------------------ MODULE PathsMC ------------------------------
EXTENDS Machine, Paths
CONSTANTS Level, Mode
L(t) == [k \in 1..Len(t) |-> SubSeq(t, k, k)]
RECURSIVE Strings(_, _)
Strings(n, A) == IF n = 0 THEN { <<>> } ELSE LET l == Strings(n - 1, A) IN l \cup { Append(q, c) : q \in { z \in l : Len(z) = n - 1 }, c \in A }
Lead(p) == Len(p) >= 2 /\ p[1] = "/" /\ p[2] = "/"
NameOps == { << "names", p >> : p \in { q \in Strings(IF Level = 1 THEN 4 ELSE 5, {"a", "b", ".", "/"}) \cup Strings(IF Level = 1 THEN 5 ELSE 7, {"a", ".", "/"}) : ~Lead(q) } }
Deep(s) == IF s.cwd = <<>> THEN {} ELSE { L(".."), L("../b") }
Dirs(s) == { L(t) : t \in {"a", "@/a", "a/b", "a b", "a/"} \cup (IF Level = 1 THEN {} ELSE {"./b", "b", "@", "a/../b", "*", "@/a/b/"}) } \cup Deep(s)
Files(s) == { L(t) : t \in {"b", "a/b", "@/a b"} \cup (IF Level = 1 THEN {} ELSE {"a", "a.b", "-a", "a b"}) }
FsOps(s) ==
  { << "makeDir", p >> : p \in Dirs(s) } \cup { << "rmDir", p >> : p \in Dirs(s) } \cup { << "cd", p >> : p \in Dirs(s) }
  \cup { << "ask", p >> : p \in Dirs(s) \cup Files(s) } \cup { << "touch", p, k >> : p \in Files(s), k \in {"f", "x"} }
  \cup { << "write", p, "new" >> : p \in Files(s) } \cup { << "read", p >> : p \in Files(s) }
  \cup { << "exec", p, "arg" >> : p \in { q \in Files(s) : \E k \in 1..Len(q) : q[k] = "/" } }
  \cup { << "list", p, e >> : p \in Dirs(s), e \in { L("b"), L("a") } }
  \cup { << "relative", p, q >> : p \in { L("@/a/b"), L("a/b") } \cup (IF Level = 1 THEN {} ELSE { L("@/b") }), q \in Dirs(s) \cup { L("@/a/") } }
TOps(s) == IF Mode = "names" THEN NameOps ELSE FsOps(s)
=============================================================================
