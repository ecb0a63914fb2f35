-------------------------------- MODULE Args --------------------------------
(* Command-line argument definitions and command lines (src/core/argument:   *)
(* Group, MutuallyExclusiveGroup, Option, Position, Switch, Parser).         *)
(* A parser is a tree of groups with arguments.  gs: the groups, in order of *)
(* creation, the first one being the parser; as: the arguments, in order of  *)
(* definition.  Words of a command line are sequences of characters.         *)
EXTENDS Readings
Letters == LET q == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" IN { SubSeq(q, k, k) : k \in 1..52 }
UInit == [gs |-> << [up |-> 0, name |-> "", me |-> FALSE, req |-> FALSE] >>, as |-> <<>>]

----------------------------------------------------------------------------
(* Definitions.  An argument: its group g, kind (pos, opt, mopt, switch,     *)
(* mswitch), name, short and long form, the types of its value, whether it   *)
(* is required, its default and its choices (sequences of texts).            *)
Options == {"opt", "mopt", "switch", "mswitch"}
ShortOK(a) == a.kind \in Options /\ a.sh \in Letters
LongOK(a) == a.kind \in Options /\ Len(a.lg) > 1 /\ a.lg[1] \in Letters /\ a.lg[2] \in Letters
Idx(q, P(_)) == LET RECURSIVE go(_) go(k) == IF k > Len(q) THEN <<>> ELSE (IF P(q[k]) THEN << k >> ELSE <<>>) \o go(k + 1) IN go(1)
AuxName(s, g) == "__aux" \o ToString(Cardinality({ h \in 1..(g - 1) : s.gs[h].me /\ s.gs[h].up = s.gs[g].up }) + 1) \o "__"
GName(s, g) == IF s.gs[g].me THEN AuxName(s, g) ELSE s.gs[g].name
\* where the value of an argument goes, and the group whose names it must differ from
Home(s, g) == IF s.gs[g].me THEN s.gs[g].up ELSE g
Taken(s, g) == { s.as[k].name : k \in { j \in 1..Len(s.as) : Home(s, s.as[j].g) = Home(s, g) } } \cup { GName(s, h) : h \in { j \in 2..Len(s.gs) : s.gs[j].up = Home(s, g) } }
Clash(s, a) ==
  \/ a.name \in Taken(s, a.g)
  \/ ShortOK(a) /\ \E k \in 1..Len(s.as) : ShortOK(s.as[k]) /\ s.as[k].sh = a.sh
  \/ LongOK(a) /\ \E k \in 1..Len(s.as) : LongOK(s.as[k]) /\ s.as[k].lg = a.lg
\* any number addresses a group; an exclusive group has no groups of its own
Place(s, g) == ((g - 1) % Len(s.gs)) + 1
ArgOf(s, op) == [g |-> Place(s, op[2]), kind |-> op[3], name |-> op[4], sh |-> op[5], lg |-> op[6], types |-> op[7], req |-> op[8], def |-> op[9], ch |-> op[10]]
Define(s, op) ==
  LET t(x, r) == [st |-> x, res |-> r]  n == op[1]  p == Place(s, op[2])  h == Home(s, p) IN
  CASE n = "arg" -> LET a == ArgOf(s, op) IN
         IF a.kind \in Options /\ ~ShortOK(a) /\ ~LongOK(a) THEN t(s, "unidentified") ELSE IF Clash(s, a) THEN t(s, "taken") ELSE t([s EXCEPT !.as = Append(@, a)], "ok")
    [] n = "none" -> t(s, "null")
    [] n = "group" -> IF op[3] \in Taken(s, h) THEN t(s, "taken") ELSE t([s EXCEPT !.gs = Append(@, [up |-> h, name |-> op[3], me |-> FALSE, req |-> FALSE])], "ok")
    [] n = "exclusive" -> t([s EXCEPT !.gs = Append(@, [up |-> h, name |-> "", me |-> TRUE, req |-> op[3]])], "ok")

Within(s, g, h) == LET RECURSIVE up(_) up(k) == k = g \/ (k # 0 /\ up(s.gs[k].up)) IN up(h)
In(s, g) == Idx(s.as, LAMBDA a : Within(s, g, a.g))
IsPos(a) == a.kind = "pos"
Seen(s, g, c) == LET m == Idx(s.as, LAMBDA a : Within(s, g, a.g) /\ ShortOK(a) /\ a.sh = c) IN IF m = <<>> THEN 0 ELSE m[1]
SeenLong(s, g, l) == LET m == Idx(s.as, LAMBDA a : Within(s, g, a.g) /\ LongOK(a) /\ a.lg = l) IN IF m = <<>> THEN 0 ELSE m[1]
Prefix(l, q) == Len(l) <= Len(q) /\ SubSeq(q, 1, Len(l)) = l
Abbrev(s, g, l) == Idx(s.as, LAMBDA a : Within(s, g, a.g) /\ LongOK(a) /\ Prefix(l, a.lg))
Probes == << "a", "b", "c", "d", "v" >>
LongProbes == << <<"a", "a">>, <<"a", "b">>, <<"a", "a", "b">>, <<"a", "l">>, <<"a", "l", "p", "h", "a">>, <<"b", "e">>, <<"b", "e", "t", "a">>, <<"a", "l", "t">> >>
NameOf(s, k) == IF k = 0 THEN "" ELSE s.as[k].name
Shown(s, k) == LET a == s.as[k] IN << a.name, IF ShortOK(a) THEN a.sh ELSE "", IF LongOK(a) THEN Cat(a.lg) ELSE "" >>
GroupObs(s, g) ==
  LET own == Idx(s.as, LAMBDA a : a.g = g)
      pos == SelectSeq(own, LAMBDA k : IsPos(s.as[k]))
      opt == SelectSeq(own, LAMBDA k : ~IsPos(s.as[k]))
      all == SelectSeq(In(s, g), LAMBDA k : IsPos(s.as[k]))
  IN << GName(s, g), s.gs[g].me, s.gs[g].req, [k \in 1..Len(pos) |-> NameOf(s, pos[k])], [k \in 1..Len(opt) |-> Shown(s, opt[k])],
        LET kids == Idx(s.gs, LAMBDA h : h.up = g) IN [k \in 1..Len(kids) |-> GName(s, kids[k])],
        [k \in 1..Len(all) |-> NameOf(s, all[k])],
        [k \in 1..Len(Probes) |-> NameOf(s, Seen(s, g, Probes[k]))],
        [k \in 1..Len(LongProbes) |-> LET l == LongProbes[k]  x == SeenLong(s, g, l) IN
            << NameOf(s, x), IF x # 0 THEN 1 ELSE 0, IF x # 0 THEN 1 ELSE Len(Abbrev(s, g, l)) >>] >>
UObs(s) == [g \in 1..Len(s.gs) |-> GroupObs(s, g)]

----------------------------------------------------------------------------
(* Command lines. *)
Kind(w) ==
  IF w = << "-", "-" >> THEN "sep"
  ELSE IF Len(w) >= 2 /\ w[1] = "-" /\ w[2] \in Letters THEN "short"
  ELSE IF Len(w) >= 4 /\ w[1] = "-" /\ w[2] = "-" /\ w[3] \in Letters /\ w[4] \in Letters THEN "long" ELSE "plain"
\* options of a cluster of short forms: what follows a form and is none itself is its value
Cluster(s, w) ==
  LET r == FoldLeft(LAMBDA acc, c :
             LET k == Seen(s, 1, c)  n == Len(acc.opts) IN
             IF k # 0 THEN [acc EXCEPT !.opts = Append(@, [k |-> k, ws |-> <<>>])]
             ELSE IF n = 0 THEN [acc EXCEPT !.run = Append(@, c)]
             ELSE [acc EXCEPT !.opts[n].ws = IF @ = <<>> THEN << << c >> >> ELSE << @[1] \o << c >> >>],
             [opts |-> <<>>, run |-> <<>>], Tail(w))
  IN [opts |-> r.opts, unr |-> IF r.run = <<>> THEN <<>> ELSE << << "-" >> \o r.run >>, amb |-> FALSE]
LongWord(s, w) ==
  LET e == { j \in 1..Len(w) : w[j] = "=" }
      q == IF e = {} THEN Len(w) + 1 ELSE CHOOSE j \in e : \A i \in e : j <= i
      name == SubSeq(w, 3, q - 1)  val == Drop(w, q)  ws == IF val = <<>> THEN <<>> ELSE << val >>
      x == SeenLong(s, 1, name)  m == IF x # 0 THEN << x >> ELSE Abbrev(s, 1, name)
  IN IF Len(m) > 1 THEN [opts |-> <<>>, unr |-> <<>>, amb |-> TRUE]
     ELSE IF m = <<>> THEN [opts |-> <<>>, unr |-> << << "-", "-" >> \o name >> \o ws, amb |-> FALSE]
     ELSE [opts |-> << [k |-> m[1], ws |-> ws] >>, unr |-> <<>>, amb |-> FALSE]
Scan(s, words) ==
  LET seps == { j \in 1..Len(words) : Kind(words[j]) = "sep" }
      cut == IF seps = {} THEN Len(words) + 1 ELSE CHOOSE j \in seps : \A i \in seps : j <= i
      r == FoldLeft(LAMBDA acc, w :
             LET n == Len(acc.bs) IN
             CASE Kind(w) = "short" -> [acc EXCEPT !.bs = Append(@, Cluster(s, w))]
               [] Kind(w) = "long" -> [acc EXCEPT !.bs = Append(@, LongWord(s, w))]
               [] OTHER -> IF n = 0 THEN [acc EXCEPT !.beg = Append(@, w)]
                           ELSE IF acc.bs[n].opts = <<>> THEN [acc EXCEPT !.bs[n].unr = Append(@, w)]
                           ELSE [acc EXCEPT !.bs[n].opts[Len(acc.bs[n].opts)].ws = Append(@, w)],
             [beg |-> <<>>, bs |-> <<>>], SubSeq(words, 1, cut - 1))
  IN [beg |-> r.beg, bs |-> r.bs, end |-> Drop(words, cut)]
\* the words that spell the types, and those that are left
RECURSIVE Spell1(_, _, _)
Spell1(t, ws, k) ==
  IF k > Len(ws) THEN [ok |-> FALSE, used |-> <<>>, left |-> ws]
  ELSE LET j == Join(SubSeq(ws, 1, k))  r == One(t, j)  u == Trim(j) IN
       IF r.ok THEN [ok |-> TRUE, used |-> LET x == Trim(SubSeq(u, 1, Len(u) - Len(r.rest))) IN IF x = <<>> THEN <<>> ELSE << x >>,
                     left |-> (IF r.rest = <<>> THEN <<>> ELSE << r.rest >>) \o Drop(ws, k)]
       ELSE Spell1(t, ws, k + 1)
RECURSIVE SpellMany(_, _)
SpellMany(t, ws) == LET r == Spell1(t, ws, 1) IN IF ~r.ok THEN [ok |-> TRUE, used |-> <<>>, left |-> ws] ELSE LET m == SpellMany(t, r.left) IN [m EXCEPT !.used = r.used \o @]
RECURSIVE Spell(_, _)
Spell(types, ws) ==
  IF types = <<>> THEN [ok |-> TRUE, used |-> <<>>, left |-> ws]
  ELSE LET r == IF types[1] = "v" THEN SpellMany("i", ws) ELSE Spell1(types[1], ws, 1) IN
       IF ~r.ok THEN r ELSE LET m == Spell(Tail(types), r.left) IN [m EXCEPT !.used = r.used \o @]
Chosen(ch, used) == ch = <<>> \/ \E c \in 1..Len(ch) : Len(ch[c]) = Len(used) /\ \A i \in 1..Len(used) : ch[c][i] \in { Cat(used[i]), "*" }
\* one occurrence: the value, the words it leaves, what is wrong with it
Occur(a, ws) ==
  IF a.kind \in {"switch", "mswitch"} THEN [val |-> "", left |-> ws, bad |-> {}]
  ELSE LET r == Spell(a.types, ws) IN
       IF ~r.ok THEN [val |-> "", left |-> <<>>, bad |-> {"value"}] ELSE [val |-> Cat(Join(r.used)), left |-> r.left, bad |-> IF Chosen(a.ch, r.used) THEN {} ELSE {"choice"}]
Flat(qq) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qq)
Texts(q) == [k \in 1..Len(q) |-> Cat(q[k])]
Joined(ts) == IF ts = <<>> THEN "" ELSE FoldLeft(LAMBDA a, t : a \o " " \o t, ts[1], Tail(ts))
Toggle(a) == IF a.def = << "1" >> THEN "0" ELSE "1"
Count(a, n) == ToString((IF a.def = <<>> THEN 0 ELSE ToInt(LET d == a.def[1] IN [k \in 1..Len(d) |-> SubSeq(d, k, k)])) + n)
Given(a, vals) == CASE a.kind = "switch" -> Toggle(a) [] a.kind = "mswitch" -> Count(a, Len(vals)) [] a.kind = "mopt" -> << "list", vals >> [] OTHER -> vals[1]
Parse(s, words, strict) ==
  LET sc == TLCEval(Scan(s, words))
      occ == TLCEval(Flat([b \in 1..Len(sc.bs) |-> [o \in 1..Len(sc.bs[b].opts) |-> LET x == sc.bs[b].opts[o] IN [k |-> x.k, r |-> Occur(s.as[x.k], x.ws)]]]))
      Of(k) == SelectSeq(occ, LAMBDA x : x.k = k)
      bad1 == UNION { occ[i].r.bad : i \in 1..Len(occ) } \cup { "multiple" : k \in { j \in 1..Len(s.as) : s.as[j].kind \in {"opt", "switch"} /\ Len(Of(j)) > 1 } }
      plain == sc.beg \o Flat([i \in 1..Len(occ) |-> occ[i].r.left]) \o sc.end
      places == Idx(s.as, IsPos)
      ps == TLCEval(FoldLeft(LAMBDA acc, k :
              IF acc.ws = <<>> \/ acc.bad # {} THEN acc
              ELSE LET r == Occur(s.as[k], acc.ws) IN [ws |-> r.left, bad |-> r.bad, got |-> Append(acc.got, << k, r.val >>)],
              [ws |-> plain, bad |-> {}, got |-> <<>>], places))
      found == { occ[i].k : i \in 1..Len(occ) } \cup { ps.got[i][1] : i \in 1..Len(ps.got) }
      missing == \E k \in (1..Len(s.as)) \ found : ~s.gs[s.as[k].g].me /\ s.as[k].def = <<>> /\ (s.as[k].req \/ IsPos(s.as[k]))
      inME(g) == Cardinality({ k \in found : s.as[k].g = g })
      bad3 == (IF missing THEN {"required"} ELSE {}) \cup (IF \E g \in 1..Len(s.gs) : s.gs[g].me /\ inME(g) > 1 THEN {"excluded"} ELSE {})
              \cup (IF \E g \in 1..Len(s.gs) : s.gs[g].me /\ s.gs[g].req /\ inME(g) = 0 THEN {"group"} ELSE {})
      left == Flat([b \in 1..Len(sc.bs) |-> sc.bs[b].unr]) \o (IF ps.ws = <<>> THEN <<>> ELSE << << "-", "-" >> >> \o ps.ws)
      bad == IF words = <<>> THEN {"empty"} ELSE IF \E b \in 1..Len(sc.bs) : sc.bs[b].amb THEN {"ambiguous"} ELSE IF bad1 # {} THEN bad1 ELSE IF ps.bad # {} THEN ps.bad
             ELSE IF bad3 # {} THEN bad3 ELSE IF strict /\ left # <<>> THEN {"unknown"} ELSE {}
      Has(k) == k \in found \/ (~s.gs[s.as[k].g].me /\ s.as[k].def # <<>>)
      Value(k) == IF k \notin found THEN Joined(s.as[k].def)
                  ELSE IF IsPos(s.as[k]) THEN (CHOOSE p \in { ps.got[i] : i \in 1..Len(ps.got) } : p[1] = k)[2]
                  ELSE Given(s.as[k], LET o == Of(k) IN [i \in 1..Len(o) |-> o[i].r.val])
      Tree[g \in 1..Len(s.gs)] ==
        LET vs == SelectSeq(Idx(s.as, LAMBDA a : Home(s, a.g) = g), Has)  kids == Idx(s.gs, LAMBDA h : h.up = g /\ ~h.me) IN
        << Len(vs) + Len(kids), [i \in 1..Len(vs) |-> << NameOf(s, vs[i]), Value(vs[i]) >>], [i \in 1..Len(kids) |-> << s.gs[kids[i]].name, Tree[kids[i]] >>] >>
  IN [bad |-> bad, res |-> IF bad # {} THEN <<"refused">> ELSE << "ok", Tree[1], Texts(left) >>]
URes(s, op) == IF op[1] = "parse" THEN LET p == Parse(s, op[2], op[3]) IN IF p.bad # {} THEN << "refused", p.bad >> ELSE p.res ELSE Define(s, op).res
UStep(s, op) ==
  CASE op[1] = "parse" -> [st |-> s, res |-> URes(s, op)]
    [] op[1] = "define" -> [st |-> FoldLeft(LAMBDA x, o : Define(x, o).st, s, op[2]), res |-> "ok"]
    [] OTHER -> Define(s, op)
----------------------------------------------------------------------------
UInv(s) ==
  /\ \A g \in 1..Len(s.gs) : s.gs[g].up < g
  /\ \A i, j \in 1..Len(s.as) : i # j =>
       /\ Home(s, s.as[i].g) = Home(s, s.as[j].g) => s.as[i].name # s.as[j].name
       /\ ShortOK(s.as[i]) /\ ShortOK(s.as[j]) => s.as[i].sh # s.as[j].sh
       /\ LongOK(s.as[i]) /\ LongOK(s.as[j]) => s.as[i].lg # s.as[j].lg
\* another spelling of a command line: a form for the other, the value joined with =
Respell(s, words) == [i \in 1..Len(words) |-> LET w == words[i]  k == IF Kind(w) = "short" /\ Len(w) = 2 THEN Seen(s, 1, w[2]) ELSE 0 IN
                        IF k # 0 /\ LongOK(s.as[k]) /\ ~(\E j \in 1..(i - 1) : Kind(words[j]) = "sep") THEN << "-", "-" >> \o s.as[k].lg ELSE w]
UTrans(s, op, t) ==
  /\ op[1] = "arg" /\ t # s => Len(t.as) = Len(s.as) + 1 /\ t.gs = s.gs
  /\ op[1] = "parse" => LET p == Parse(s, op[2], op[3])  q == Parse(s, Respell(s, op[2]), op[3]) IN
       /\ p.bad = q.bad /\ ToJson(p.res) = ToJson(q.res)
=============================================================================
