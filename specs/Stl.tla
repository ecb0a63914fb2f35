-------------------------------- MODULE Stl --------------------------------
(* Import of triangulated surfaces written as ASCII STL (src/parser/stl).    *)
(* The state is the text: a sequence of solids << name, facets >>, a facet   *)
(* being a sequence of positions in quarters (three, unless the file is      *)
(* broken), and where the text stops inside the last facet: "" (it is        *)
(* whole), "opened" (before its vertices), "vertices" (before the vertices   *)
(* end), "number" (inside a vertex), "closed" (after them), or "garbage"     *)
(* (a word stands for a number).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
ZInit == [solids |-> <<>>, cut |-> ""]
Facets(s) == FlattenSeq([i \in 1..Len(s.solids) |-> [k \in 1..Len(s.solids[i][2]) |-> << i, s.solids[i][2][k] >>]])
HasFacet(s) == s.solids # <<>> /\ s.solids[Len(s.solids)][2] # <<>>
Cut(s) == IF HasFacet(s) THEN s.cut ELSE ""
Refused(s) == Cut(s) \in {"vertices", "number", "garbage"} \/ \E k \in 1..Len(Facets(s)) : Len(Facets(s)[k][2]) # 3 /\ (k < Len(Facets(s)) \/ Cut(s) # "opened")
Kept(s) == IF Cut(s) = "opened" THEN SubSeq(Facets(s), 1, Len(Facets(s)) - 1) ELSE Facets(s)
ZObs(s) ==
  IF Refused(s) THEN "refused"
  ELSE << [i \in 1..Len(s.solids) |-> << i, s.solids[i][1] >>],
          [k \in 1..Len(Kept(s)) |-> << k, "Tri3", Kept(s)[k][1], 1, Kept(s)[k][2] >>],
          \* the positions with a coordinate, in order; the material; solver, sources and output requests
          SortSeq(SetToSeq(UNION { ToSet(Kept(s)[k][2]) : k \in 1..Len(Kept(s)) }), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))),
          << << 1, "PEC" >> >>, << 0, 0, 0 >> >>
ZStep(s, op) ==
  LET n == op[1]  t(x) == [st |-> x, res |-> "ok"]  k == Len(s.solids) IN
  CASE n = "solid" -> t([s EXCEPT !.solids = Append(@, << op[2], <<>> >>)])
    [] n = "facet" -> t([s EXCEPT !.solids[k][2] = Append(@, op[2])])
    [] n = "cut" -> t([s EXCEPT !.cut = op[2]])
    [] n = "drop" -> t([s EXCEPT !.solids = SubSeq(@, 1, k - 1)])
    [] OTHER -> t(s)
ZInv(s) ==
  LET o == ZObs(s) IN
  ~Refused(s) =>
    /\ Len(o[1]) = Len(s.solids) /\ Len(o[2]) \in {Len(Facets(s)), Len(Facets(s)) - 1}
    /\ \A k \in 1..Len(o[2]) : o[2][k][1] = k /\ \E l \in 1..Len(o[1]) : o[1][l][1] = o[2][k][3]
    \* the facets of a solid come together, in the order of the solids
    /\ \A k \in 1..(Len(o[2]) - 1) : o[2][k][3] <= o[2][k + 1][3]
    /\ ToSet(o[3]) = UNION { ToSet(o[2][k][5]) : k \in 1..Len(o[2]) }
ZTrans(s, op, t) ==
  /\ op[1] = "solid" /\ ~Refused(t) /\ ~Refused(s) /\ s.cut = "" => ZObs(t)[2] = ZObs(s)[2]
  /\ op[1] = "facet" /\ ~Refused(t) /\ s.cut = "" => ~Refused(s) /\ SubSeq(ZObs(t)[2], 1, Len(ZObs(t)[2]) - 1) = ZObs(s)[2] /\ ZObs(t)[1] = ZObs(s)[1]
=============================================================================
