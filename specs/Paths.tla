------------------------------- MODULE Paths -------------------------------
(* Paths of a project (src/core/filesystem/Project). A path is a sequence   *)
(* of characters; "@" stands for the folder everything happens in. The      *)
(* state is the tree of files below it and the current folder: nodes maps   *)
(* the names that lead to a node to << kind, content >>, the kind being "d" *)
(* (folder), "f" (file) or "x" (executable file).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
TInit == [nodes |-> (<<>> :> << "d", "" >>), cwd |-> <<>>]
Text(p) == FoldSeq(LAMBDA c, acc : acc \o c, "", p)
RECURSIVE Split(_)
\* the components between slashes, empty ones included
Split(p) ==
  LET at == SelectInSeq(p, LAMBDA c : c = "/") IN
  IF at = 0 THEN << p >> ELSE << SubSeq(p, 1, at - 1) >> \o Split(SubSeq(p, at + 1, Len(p)))
\* ------------------------------------------------------------- the names
OnlySlashes(p) == p # <<>> /\ \A k \in 1..Len(p) : p[k] = "/"
RECURSIVE Chop(_)
Chop(p) == IF p # <<>> /\ p[Len(p)] = "/" THEN Chop(SubSeq(p, 1, Len(p) - 1)) ELSE p
Cut(p) == LET q == Chop(p) IN SelectLastInSeq(q, LAMBDA c : c = "/")
Base(p) == IF p = <<>> THEN << "." >> ELSE IF OnlySlashes(p) THEN << "/" >> ELSE LET q == Chop(p) IN SubSeq(q, Cut(p) + 1, Len(q))
Dir(p) ==
  IF p = <<>> THEN << "." >> ELSE IF OnlySlashes(p) THEN << "/" >>
  ELSE IF Cut(p) = 0 THEN << "." >>
  ELSE LET q == Chop(SubSeq(p, 1, Cut(p))) IN IF q = <<>> THEN << "/" >> ELSE q
Folder(p) == LET d == Dir(p) IN IF d[Len(d)] = "/" THEN d ELSE Append(d, "/")
Dot(b) == LET k == SelectLastInSeq(b, LAMBDA c : c = ".") IN IF k <= 1 THEN Len(b) + 1 ELSE k
Ext(p) == LET b == Base(p) IN SubSeq(b, Dot(b), Len(b))
Stem(p) == LET b == Base(p) IN SubSeq(b, 1, Dot(b) - 1)
\* names made of dots only (the folder itself and the one above) have no stem
Named(p) == LET b == Base(p) IN Len(b) = 1 \/ \E k \in 1..Len(b) : b[k] # "."
Names(p) == << Folder(p), Base(p), IF Named(p) THEN << Ext(p), Stem(p), Stem(p), Folder(p) \o Stem(p) >> ELSE <<>>, p >>
\* ---------------------------------------------------------------- the tree
Kind(s, at) == IF at \in DOMAIN s.nodes THEN s.nodes[at][1] ELSE "none"
None == [kind |-> "none", at |-> <<>>, new |-> FALSE]
RECURSIVE Walk(_, _, _)
\* from the node at, through the components: what is there, and whether something new could be
Walk(s, at, cs) ==
  IF cs = <<>> THEN [kind |-> Kind(s, at), at |-> at, new |-> FALSE]
  ELSE IF Kind(s, at) # "d" THEN None
  ELSE LET c == Head(cs)  r == Tail(cs)  n == Append(at, c) IN
    IF c \in {<<>>, << "." >>} THEN Walk(s, at, r)
    ELSE IF c = << ".", "." >> THEN Walk(s, SubSeq(at, 1, Len(at) - 1), r)
    ELSE IF Kind(s, n) = "none" THEN [kind |-> "none", at |-> n, new |-> \A k \in 1..Len(r) : r[k] = <<>>]
    ELSE Walk(s, n, r)
Find(s, p) ==
  IF p = <<>> THEN None
  ELSE IF p[1] = "@" THEN Walk(s, <<>>, Tail(Split(p))) ELSE Walk(s, s.cwd, Split(p))
Slashed(p) == p # <<>> /\ p[Len(p)] = "/"
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
LastName(p) == LET c == Split(p) IN c[Len(c)]
Where(at) == "@" \o FoldSeq(LAMBDA c, acc : acc \o "/" \o Text(c), "", at)
\* the entries of a folder whose names end with a text
Ends(n, e) == Len(n) >= Len(e) /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e
Entries(s, at) == { k[Len(k)] : k \in { z \in DOMAIN s.nodes : Len(z) = Len(at) + 1 /\ IsPre(at, z) } }
List(s, p, e) == LET f == Find(s, p) IN IF f.kind = "d" THEN { n \in Entries(s, f.at) : Ends(n, e) } ELSE {}
Relative(s, p, q) ==
  LET f == IF Find(s, q).kind = "d" THEN (IF Slashed(q) THEN q ELSE Append(q, "/")) ELSE Folder(q) IN
  IF IsPre(f, p) THEN SubSeq(p, Len(f) + 1, Len(p)) ELSE p
\* the calls that would take the current folder away, or that name it by a dot, are not made
Spared(s, p) == LET f == Find(s, p) IN f.kind = "d" /\ (IsPre(f.at, s.cwd) \/ LastName(Chop(p)) \in {<<>>, << "." >>, << ".", "." >>, << "@" >>})
Put(s, at, n) == [s EXCEPT !.nodes = (at :> n) @@ @]
TStep(s, op) ==
  LET n == op[1]  p == op[2]  f == Find(s, p)  same(r) == [st |-> s, res |-> r]  IN
  CASE n = "names" -> same(Names(p))
    [] n = "ask" -> same(<< f.kind = "d", IF f.kind = "d" THEN "folder" ELSE IF f.kind = "none" THEN "no" ELSE "opens", f.kind = "x",
                            IF f.kind = "none" THEN "refused" ELSE Where(f.at) \o (IF f.kind = "d" THEN "/" ELSE "") >>)
    [] n = "makeDir" -> IF f.kind = "d" THEN same("ok") ELSE IF f.new THEN [st |-> Put(s, f.at, << "d", "" >>), res |-> "ok"] ELSE same("refused")
    [] n = "rmDir" -> IF Spared(s, p) THEN same("spared")
                      ELSE IF f.kind = "d" THEN [st |-> [s EXCEPT !.nodes = [k \in { z \in DOMAIN @ : ~IsPre(f.at, z) } |-> @[k]]], res |-> "ok"] ELSE same("ok")
    [] n = "touch" -> IF f.new /\ ~Slashed(p) THEN [st |-> Put(s, f.at, << op[3], IF op[3] = "f" THEN "old" ELSE "" >>), res |-> "ok"] ELSE same("ok")
    [] n = "cd" -> IF f.kind = "d" THEN [st |-> [s EXCEPT !.cwd = f.at], res |-> "ok"] ELSE same("ok")
    [] n = "write" -> IF f.kind = "x" THEN same("spared")
                      ELSE IF (f.kind = "f" \/ f.new) /\ ~Slashed(p) THEN [st |-> Put(s, f.at, << "f", op[3] >>), res |-> "ok"] ELSE same("closed")
    [] n = "read" -> IF f.kind \in {"d", "x"} THEN same("spared") ELSE same(IF f.kind = "f" /\ ~Slashed(p) THEN << s.nodes[f.at][2] >> ELSE "closed")
    [] n = "exec" -> same(IF f.kind = "x" /\ ~Slashed(p) THEN << "ran", op[3] >> ELSE "refused")
    [] n = "list" -> same({ Text(x) : x \in List(s, p, op[3]) })
    [] n = "relative" -> same(Relative(s, p, op[3]))
TObs(s) == << { << Where(k), s.nodes[k][1], s.nodes[k][2] >> : k \in DOMAIN s.nodes }, Where(s.cwd) >>
TInv(s) ==
  /\ Kind(s, s.cwd) = "d"
  /\ \A k \in DOMAIN s.nodes : k = <<>> \/ Kind(s, SubSeq(k, 1, Len(k) - 1)) = "d"
TTrans(s, op, t) ==
  LET p == op[2] IN
  \* questions change nothing
  /\ op[1] \in {"names", "ask", "read", "exec", "list", "relative"} => t = s
  \* what lies out of the named folder stays
  /\ op[1] = "rmDir" => \A k \in DOMAIN s.nodes : k \in DOMAIN t.nodes \/ IsPre(Find(s, p).at, k)
  /\ op[1] = "makeDir" => DOMAIN s.nodes \subseteq DOMAIN t.nodes
  /\ op[1] = "names" /\ p # <<>> /\ ~OnlySlashes(p) =>
       \* folder and name together lead where the path leads; the name is its stem and its extension
       /\ SelectSeq(Split(Folder(p) \o Base(p)), LAMBDA c : c \notin {<<>>, << "." >>}) = SelectSeq(Split(p), LAMBDA c : c \notin {<<>>, << "." >>})
       /\ Stem(p) \o Ext(p) = Base(p)
       /\ \A k \in 1..Len(Ext(p)) : Ext(p)[k] # "/"
  /\ op[1] = "relative" => LET r == Relative(s, p, op[3]) IN r = p \/ (IsPre(SubSeq(p, 1, Len(p) - Len(r)), p) /\ p[Len(p) - Len(r)] = "/")
=============================================================================
