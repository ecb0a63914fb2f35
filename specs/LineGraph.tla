----------------------------- MODULE LineGraph -----------------------------
(* Graphs of elements joined at the coordinates they share, in three        *)
(* registers.  A graph has a node per element, which lists its bounds (one  *)
(* per coordinate of the element), and a bound per coordinate, which lists  *)
(* the elements there.  Neighbours are always derived: two elements with a  *)
(* common bound, two bounds with a common element.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Hollow == [els |-> <<>>, bs |-> <<>>]
GInit == << Hollow, Hollow, Hollow >>
MapS(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
Sorted(S) == SetToSortSeq(S, <)
\* coordinates in order of first appearance
Flat(es) == FlattenSeq([i \in DOMAIN es |-> es[i][2]])
RECURSIVE Dist(_, _)
Dist(q, acc) == IF q = <<>> THEN acc ELSE Dist(Tail(q), IF Head(q) \in ToSet(acc) THEN acc ELSE Append(acc, Head(q)))
Where(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Occ(es, c) == FlattenSeq([i \in DOMAIN es |-> [k \in 1..Len(SelectSeq(es[i][2], LAMBDA x : x = c)) |-> i]])
Build(es) == LET cs == Dist(Flat(es), <<>>) IN
  [els |-> [i \in DOMAIN es |-> [id |-> es[i][1], b |-> MapS(LAMBDA c : Where(cs, c), es[i][2])]],
   bs |-> [k \in DOMAIN cs |-> [c |-> cs[k], adj |-> Occ(es, cs[k])]]]
\* the elements at a bound get a bound each: the first one keeps it
SplitAt(g, i) ==
  LET adj == g.bs[i].adj  n == Len(g.bs)
      mine(e) == CHOOSE j \in DOMAIN adj : adj[j] = e
      new(e) == IF mine(e) = 1 THEN i ELSE n + mine(e) - 1 IN
  IF Len(adj) = 0 THEN g ELSE
  [els |-> [e \in DOMAIN g.els |-> IF e \in ToSet(adj) THEN [g.els[e] EXCEPT !.b = MapS(LAMBDA b : IF b = i THEN new(e) ELSE b, @)] ELSE g.els[e]],
   bs |-> [g.bs EXCEPT ![i].adj = << adj[1] >>] \o [j \in 1..(Len(adj) - 1) |-> [c |-> g.bs[i].c, adj |-> << adj[j + 1] >>]]]
\* neighbours
AtBound(g, e, b) == ToSet(g.bs[b].adj) \ {e}
Near(g, e) == UNION { AtBound(g, e, b) : b \in ToSet(g.els[e].b) }
Across(g, b, e) == { x \in ToSet(g.els[e].b) : g.bs[x].c # g.bs[b].c }
NearB(g, b) == UNION { Across(g, b, e) : e \in ToSet(g.bs[b].adj) }
RECURSIVE Reach(_, _)
Reach(g, S) == LET T == S \cup UNION { Near(g, e) : e \in S } IN IF T = S THEN S ELSE Reach(g, T)
RECURSIVE Comps(_, _, _)
Comps(g, i, seen) == IF i > Len(g.els) THEN <<>> ELSE IF i \in seen THEN Comps(g, i + 1, seen)
                     ELSE LET r == Reach(g, {i}) IN << Sorted({ g.els[e].id : e \in r }) >> \o Comps(g, i + 1, seen \cup r)
GStep(s, op) ==
  LET n == op[1]  i == op[2] + 1  t(g) == [st |-> [s EXCEPT ![i] = g], res |-> "ok"] IN
  CASE n = "init" -> t(Build(op[3]))
    [] n \in {"copy", "assign"} -> t(s[op[3] + 1])
    [] n = "split" -> t(SplitAt(s[i], op[3] + 1))
    [] n = "comps" -> [st |-> s, res |-> Comps(s[i], 1, {})]
ObsG(g) == << [e \in DOMAIN g.els |-> << g.els[e].id, MapS(LAMBDA b : b - 1, g.els[e].b), MapS(LAMBDA x : x - 1, Sorted(Near(g, e))),
                                         MapS(LAMBDA b : MapS(LAMBDA x : x - 1, Sorted(AtBound(g, e, b))), g.els[e].b) >>],
              [b \in DOMAIN g.bs |-> << g.bs[b].c, MapS(LAMBDA e : e - 1, g.bs[b].adj), MapS(LAMBDA x : x - 1, Sorted(NearB(g, b))) >>] >>
ObsAll(s) == << MapS(ObsG, s), "apart" >>
GraphOK(g) ==
  /\ \A e \in DOMAIN g.els, b \in DOMAIN g.bs : (b \in ToSet(g.els[e].b)) <=> (e \in ToSet(g.bs[b].adj))
  /\ \A e, f \in DOMAIN g.els : (f \in Near(g, e)) <=> (e \in Near(g, f))
  /\ \A b, c \in DOMAIN g.bs : (c \in NearB(g, b)) <=> (b \in NearB(g, c))
  /\ LET c == Comps(g, 1, {}) IN
     /\ UNION { ToSet(c[k]) : k \in DOMAIN c } = { g.els[e].id : e \in DOMAIN g.els }
     /\ \A k, l \in DOMAIN c : k # l => ToSet(c[k]) \cap ToSet(c[l]) = {}
GInv(s) == \A i \in 1..3 : GraphOK(s[i])
\* splitting parts exactly the elements that meet there
GTrans(s, op, t) ==
  /\ \A i \in 1..3 : i # op[2] + 1 => t[i] = s[i]
  /\ op[1] = "split" => LET g == s[op[2] + 1]  h == t[op[2] + 1]  b == op[3] + 1 IN
       /\ \A e, f \in ToSet(g.bs[b].adj) : e # f => ToSet(h.els[e].b) \cap ToSet(h.els[f].b) = (ToSet(g.els[e].b) \cap ToSet(g.els[f].b)) \ {b}
       /\ \A x \in DOMAIN g.bs : x # b => h.bs[x] = g.bs[x]
       /\ \A e \in DOMAIN g.els : MapS(LAMBDA x : h.bs[x].c, h.els[e].b) = MapS(LAMBDA x : g.bs[x].c, g.els[e].b)
=============================================================================
