-------------------------------- MODULE Wires --------------------------------
(* Grouping of lines into wires.  A line is <<id, first, last, material,      *)
(* layer>>; materials: 1, 2 wires, 3, 4 wires with extremes, 5, 6 multiports  *)
(* (connectors), 7 something else.  The specification does not say how wires  *)
(* are found but what a grouping must be (Valid), and which one it is where   *)
(* the lines are plain wires or every connector points to the end of a wire   *)
(* (Exact).                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
WInit == [kind |-> "R", ls |-> <<>>]
Lid(l) == l[1]
Wir(l) == l[4] \in 1..4
Con(l) == l[4] \in 5..6
Used(m) == { i \in DOMAIN m : Wir(m[i]) \/ Con(m[i]) }
At(m, c) == { i \in Used(m) : m[i][2] = c \/ m[i][3] = c }
Coords(m) == UNION { { m[i][2], m[i][3] } : i \in Used(m) }
\* a connector is well attached when it arrives at the free end of one plain wire of its layer
Attached(m, i) == LET j == At(m, m[i][3]) \ {i} IN
  /\ At(m, m[i][2]) = {i} /\ Cardinality(j) = 1
  /\ \A k \in j : m[k][4] \in 1..2 /\ m[k][5] = m[i][5]
WellFormed(m) == \A i \in Used(m) : Con(m[i]) => Attached(m, i)
Loose(m, i) == Con(m[i]) /\ ~Attached(m, i)
\* lines i and j continue one another at coordinate c
Joined(m, i, j, c) ==
  /\ At(m, c) = {i, j} /\ i # j /\ m[i][5] = m[j][5]
  /\ \/ Wir(m[i]) /\ Wir(m[j]) /\ m[i][4] = m[j][4] /\ ((m[i][3] = c) # (m[j][3] = c))
     \/ Con(m[i]) /\ Wir(m[j])
     \/ Wir(m[i]) /\ Con(m[j])
Near(m, i) == { j \in Used(m) : \E c \in { m[i][2], m[i][3] } : Joined(m, i, j, c) }
RECURSIVE Reach(_, _)
Reach(N, S) == LET T == S \cup UNION { N[i] : i \in S } IN IF T = S THEN S ELSE Reach(N, T)
Exact(m) == LET N == TLCEval([i \in DOMAIN m |-> IF i \in Used(m) THEN Near(m, i) ELSE {}]) IN { Reach(N, {i}) : i \in Used(m) }
\* a wire is [id, ids of its lines, flags, coordinates, layer, material's id, its name, its radius, extremes]
Ids(w) == w[2]
LineOf(m, id) == CHOOSE l \in ToSet(m) : Lid(l) = id
\* the polyline passes along its lines in order (or in the opposite order), and the flags tell which ones it goes against
Along(m, w, ids, flags) == \A k \in DOMAIN ids : LET l == LineOf(m, ids[k]) IN
  IF flags[k] THEN l[2] = w[4][k + 1] /\ l[3] = w[4][k] ELSE l[2] = w[4][k] /\ l[3] = w[4][k + 1]
Chain(m, w) ==
  /\ Len(w[2]) > 0 /\ Len(w[3]) = Len(w[2]) /\ Len(w[4]) = Len(w[2]) + 1
  \* where two lines join the same two coordinates nothing tells which one goes first
  /\ \/ Along(m, w, w[2], w[3])
     \/ Along(m, w, Reverse(w[2]), Reverse(w[3]))
     \/ Len(w[2]) = 2 /\ w[4][1] = w[4][3] /\ \A k \in 1..2 : { LineOf(m, w[2][k])[2], LineOf(m, w[2][k])[3] } = { w[4][1], w[4][2] }
  /\ LET inner == IF w[4][1] = Last(w[4]) THEN Tail(w[4]) ELSE w[4] IN IsInjective(inner)
WireMat(m, w) == { LineOf(m, i)[4] : i \in { i \in ToSet(w[2]) : Wir(LineOf(m, i)) } }
Ordered(m, w) == IF Along(m, w, w[2], w[3]) THEN w[2] ELSE Reverse(w[2])
\* connectors at the first and last line of the wire
Ext(m, w, i) == IF Con(LineOf(m, i)) THEN LineOf(m, i)[4] ELSE 0
Material(m, w) ==
  LET k == CHOOSE k \in WireMat(m, w) : TRUE  o == Ordered(m, w)
      \* when the wire is closed or a connector has another connector next to it, which is its end is not specified
      plain == WellFormed(m) /\ w[4][1] # Last(w[4]) IN
  /\ Cardinality(WireMat(m, w)) = 1
  /\ w[8] = 10 * k
  /\ k >= 3 => w[7] = (IF k = 3 THEN "X" ELSE "Y") /\ (plain => w[9] = (IF k = 3 THEN << 5, 0 >> ELSE << 6, 5 >>))
  /\ k < 3 /\ plain => w[9] = << Ext(m, w, o[1]), Ext(m, w, Last(o)) >>
  /\ k < 3 /\ (\A i \in Used(m) : ~Con(m[i])) => w[9] = << 0, 0 >>
Degree(m, c) == Cardinality(At(m, c))
ValidWire(m, w) ==
  /\ Chain(m, w) /\ Material(m, w)
  /\ \A i \in ToSet(w[2]) : LineOf(m, i)[5] = w[5]
  \* coordinates where more than two lines meet are ends (where two lines join the same two coordinates, either may be the end)
  /\ (Len(w[2]) = 2 /\ w[4][1] = w[4][3]) \/ \A k \in 2..(Len(w[4]) - 1) : Degree(m, w[4][k]) = 2
Names(ws, k) == { x \in DOMAIN ws : ws[x][8] = 10 * k }
Valid(m, ws) ==
  /\ \A x \in DOMAIN ws : ws[x][1] = x /\ ValidWire(m, ws[x])
  /\ Len(FlattenSeq([x \in DOMAIN ws |-> ws[x][2]])) = Cardinality(Used(m))
  /\ UNION { ToSet(ws[x][2]) : x \in DOMAIN ws } = { Lid(m[i]) : i \in Used(m) }
  /\ Cardinality({ ws[x][6] : x \in DOMAIN ws }) = Len(ws)
  /\ \A k \in 1..2 : { ws[x][7] : x \in Names(ws, k) } = { << "A_", "B_" >>[k] \o ToString(j) : j \in 1..Cardinality(Names(ws, k)) }
IsRefused(r) == ToJson(r) = "[\"refused\"]"
\* a grouping is accepted: refusing is right only where a connector is attached to nothing it could be
Accept(m, r) ==
  IF WellFormed(m) THEN ~IsRefused(r) /\ Valid(m, r) /\ { ToSet(r[x][2]) : x \in DOMAIN r } = { { Lid(m[i]) : i \in g } : g \in Exact(m) }
  ELSE IsRefused(r) \/ Valid(m, r)
WStep(s, op) == CASE op[1] = "kind" -> [st |-> [s EXCEPT !.kind = op[2]], res |-> "ok"]
                  [] op[1] = "line" -> [st |-> [s EXCEPT !.ls = Append(@, Tail(op))], res |-> "ok"]
                  [] op[1] = "drop" -> [st |-> [s EXCEPT !.ls = SelectSeq(@, LAMBDA l : Lid(l) # op[2])], res |-> "ok"]
\* the specification's own grouping is a partition into chains with one wire material each
Ends(m, g) == { c \in Coords(m) : Cardinality({ i \in g : m[i][2] = c \/ m[i][3] = c }) = 1 }
WInv(s) == LET m == s.ls  E == TLCEval(Exact(m)) IN
  /\ UNION E = Used(m) /\ \A a, b \in E : a = b \/ a \cap b = {}
  /\ WellFormed(m) => \A g \in E :
       /\ Cardinality({ m[i][4] : i \in { i \in g : Wir(m[i]) } }) = 1 /\ Cardinality({ m[i][5] : i \in g }) = 1
       /\ Cardinality({ i \in g : Con(m[i]) }) <= 2
       /\ LET e == Cardinality(Ends(m, g))  hub == \E c \in Coords(m) : Cardinality(At(m, c)) > 2 /\ \E i \in g : i \in At(m, c) IN e = 2 \/ e = 0 \/ hub
WTrans(s, op, t) == TRUE
=============================================================================
