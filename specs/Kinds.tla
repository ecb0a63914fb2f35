------------------------------- MODULE Kinds -------------------------------
(* The kinds of elements: which coordinates are their vertices and which lie *)
(* on each side, and the geometry that follows from the positions.  Four     *)
(* registers of elements; a coordinate is <<id, position>>.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
B == INSTANCE Box
Void == [ty |-> "-", k |-> "-", id |-> 0, cs |-> <<>>, lay |-> 0, mat |-> 0, norm |-> <<>>]
KInit == << Void, Void, Void, Void >>
MapS(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
Pick(q, idx) == MapS(LAMBDA i : q[i], idx)
\* nodes of each side, as positions in the list of coordinates
Tri6Sides == << <<1, 2, 4>>, <<4, 5, 6>>, <<6, 3, 1>> >>
Tet4Sides == << <<1, 2, 3>>, <<2, 1, 4>>, <<3, 4, 1>>, <<4, 3, 2>> >>
Tet10Sides == << <<1, 2, 3, 5, 6, 8>>, <<5, 2, 7, 1, 4, 10>>, <<8, 9, 3, 10, 4, 1>>, <<10, 9, 7, 8, 6, 5>> >>
Hex8Sides == << <<1, 2, 3, 4>>, <<1, 4, 8, 5>>, <<1, 5, 6, 2>>, <<2, 6, 7, 3>>, <<3, 7, 8, 4>>, <<5, 8, 7, 6>> >>
Around(n) == [i \in 1..n |-> << i, (i % n) + 1 >>]
Sides(e) == CASE e.ty = "Node" -> << <<1>> >>
              [] e.ty \in {"Line", "LConf"} -> << <<1>>, <<2>> >>
              [] e.ty = "Poly" -> << <<1>>, << Len(e.cs) >> >>
              [] e.ty = "Tri3" -> Around(3)  [] e.ty = "Qua4" -> Around(4)
              [] e.ty = "Tri6" -> Tri6Sides  [] e.ty = "Tet4" -> Tet4Sides
              [] e.ty = "Tet10" -> Tet10Sides  [] e.ty = "Hex8" -> Hex8Sides
Vertices(e) == CASE e.ty = "Poly" -> << 1, Len(e.cs) >>
                 [] e.ty = "Tri6" -> << 1, 4, 6 >>  [] e.ty = "Tet10" -> << 1, 5, 8, 10 >>
                 [] OTHER -> [i \in DOMAIN e.cs |-> i]
SideVerts(e) == MapS(LAMBDA q : SelectSeq(q, LAMBDA i : i \in ToSet(Vertices(e))), Sides(e))
Kind(t, n) == [Void EXCEPT !.ty = t, !.cs = [i \in 1..n |-> << i, <<0, 0, 0>> >>]]
\* the tables themselves: sides are made of coordinates, every edge of a solid is walked once in each direction, and
\* so is every vertex between the sides of a surface; the nodes of a quadratic element that are not vertices are in the middle of one edge
Edges(e) == UNION { { << q[i], q[(i % Len(q)) + 1] >> : i \in 1..Len(q) } : q \in ToSet(SideVerts(e)) }
Count(e) == LET q == SideVerts(e) IN Len(FlattenSeq(q))
ASSUME \A t \in { <<"Tet4", 4>>, <<"Tet10", 10>>, <<"Hex8", 8>> } : LET e == Kind(t[1], t[2]) IN
         /\ Cardinality(Edges(e)) = Count(e)
         /\ \A x \in Edges(e) : << x[2], x[1] >> \in Edges(e)
ASSUME \A t \in { <<"Tri3", 3>>, <<"Tri6", 6>>, <<"Qua4", 4>> } : LET q == SideVerts(Kind(t[1], t[2])) IN
         \A i \in DOMAIN q : Len(q[i]) = 2 /\ q[i][2] = q[(i % Len(q)) + 1][1]
\* geometry
Sub(a, b) == [d \in 1..3 |-> a[d] - b[d]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Zero == <<0, 0, 0>>
P(e, i) == e.cs[i][2]
Normal(e, q) == Cross(Sub(P(e, q[2]), P(e, q[1])), Sub(P(e, q[3]), P(e, q[1])))
Flat(e, q, d) == \A i \in ToSet(q) : P(e, i)[d] = P(e, q[1])[d]
Planes(e, q) == << Flat(e, q, 3), Flat(e, q, 1), Flat(e, q, 2) >>      \* xy, yz, zx
Bent(e, q) == \E m \in { <<1, 2, 4>>, <<4, 5, 6>>, <<6, 3, 1>> } : [d \in 1..3 |-> P(e, q[m[1]])[d] + P(e, q[m[3]])[d]] # [d \in 1..3 |-> 2 * P(e, q[m[2]])[d]]
EdgeV(e, q) == [i \in DOMAIN q |-> Sub(P(e, q[(i % Len(q)) + 1]), P(e, q[i]))]
Aligned(v) == Cardinality({ d \in 1..3 : v[d] # 0 }) = 1
Square(e, q) == LET v == EdgeV(e, q) IN IF Zero \in ToSet(v) THEN "any" ELSE \A i \in DOMAIN v : Dot(v[i], v[(i % Len(v)) + 1]) = 0
\* four points in convex position in a plane, in order
Convex(e, q) == LET v == EdgeV(e, q)  c == [i \in 1..4 |-> Cross(v[i], v[(i % 4) + 1])] IN
                /\ \A i \in 1..4 : Cross(c[1], c[i]) = Zero /\ Dot(c[1], c[i]) > 0
\* twice the area, squared
Area2(e, q) == LET n == IF Len(q) = 3 THEN Normal(e, q) ELSE Cross(Sub(P(e, q[3]), P(e, q[1])), Sub(P(e, q[4]), P(e, q[2]))) IN
               IF Len(q) = 4 /\ ~Convex(e, q) THEN "any" ELSE Dot(n, n)
Det(a, b, c) == Dot(a, Cross(b, c))
Vol6(e) == Det(Sub(P(e, 1), P(e, 2)), Sub(P(e, 1), P(e, 3)), Sub(P(e, 1), P(e, 4)))
AxisFlat(cs) == \E d \in 1..3 : \A i \in DOMAIN cs : cs[i][2][d] = cs[1][2][d]
All(e) == [i \in DOMAIN e.cs |-> i]
Geo(e) == CASE e.ty = "Tri3" -> << Area2(e, <<1, 2, 3>>), Planes(e, All(e)), FALSE, FALSE, FALSE >>
            [] e.ty = "Tri6" -> << Bent(e, All(e)), Planes(e, All(e)), FALSE, TRUE >>
            [] e.ty = "Qua4" -> << Square(e, All(e)), Planes(e, All(e)), FALSE, FALSE >>
            [] e.ty = "Tet4" -> << Vol6(e), MapS(LAMBDA q : << Area2(e, q), Planes(e, q), FALSE >>, Tet4Sides), FALSE, FALSE >>
            [] e.ty = "Tet10" -> << \E q \in ToSet(Tet10Sides) : Bent(e, q), MapS(LAMBDA q : << Bent(e, q), Planes(e, q) >>, Tet10Sides), TRUE >>
            [] e.ty = "Hex8" -> << IF e.k = "I" THEN "-" ELSE \A q \in ToSet(Hex8Sides) : \A v \in ToSet(EdgeV(e, q)) : Aligned(v),
                                   MapS(LAMBDA q : << Area2(e, q), Planes(e, q), FALSE >>, Hex8Sides), FALSE, FALSE >>
            [] e.ty = "LConf" -> << e.norm, FALSE, FALSE >>
            [] OTHER -> << FALSE, FALSE >>
\* vectors the implementation must report with length one; <<>>: nothing is required
Req(e, n) == IF n = Zero \/ (e.k = "I" /\ ~Aligned(n)) THEN <<>> ELSE n
Norms(e) == CASE e.ty \in {"Tri3", "Qua4", "Tri6"} -> << Req(e, Normal(e, Vertices(e))) >>
              [] e.ty \in {"Tet4", "Tet10", "Hex8"} -> MapS(LAMBDA q : Req(e, Normal(e, q)), SideVerts(e))
              [] OTHER -> <<>>
MinI(X) == CHOOSE m \in X : \A x \in X : m <= x
MaxI(X) == CHOOSE m \in X : \A x \in X : x <= m
Lo(e) == [d \in 1..3 |-> MinI({ P(e, i)[d] : i \in DOMAIN e.cs })]
Hi(e) == [d \in 1..3 |-> MaxI({ P(e, i)[d] : i \in DOMAIN e.cs })]
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
VPos(e) == { P(e, i) : i \in ToSet(Vertices(e)) }
Ends(e) == << CHOOSE a \in VPos(e) : \A b \in VPos(e) : a = b \/ Before(a, b), CHOOSE a \in VPos(e) : \A b \in VPos(e) : a = b \/ Before(b, a) >>
Id(e, i) == e.cs[i][1]
Obs(e) == IF e.ty = "-" THEN <<>> ELSE
  << e.ty, e.k, e.id, e.lay, e.mat, e.cs, MapS(LAMBDA i : Id(e, i), Vertices(e)),
     MapS(LAMBDA q : MapS(LAMBDA i : Id(e, i), q), Sides(e)), MapS(LAMBDA q : MapS(LAMBDA i : Id(e, i), q), SideVerts(e)),
     << Lo(e), Hi(e) >>, Ends(e), Geo(e) >>
\* boxes as elements: corners found or added
DimOf(t) == CASE t = "Node" -> 0 [] t = "Line" -> 1 [] t = "Qua4" -> 2 [] t = "Hex8" -> 3
RECURSIVE Place(_, _, _)
Place(have, ps, out) == IF ps = <<>> THEN << have, out >> ELSE
  LET p == Head(ps)  h == { i \in DOMAIN have : have[i] = p } IN
  IF h = {} THEN Place(Append(have, p), Tail(ps), Append(out, << Len(have) + 1, p >>)) ELSE Place(have, Tail(ps), Append(out, << CHOOSE i \in h : TRUE, p >>))
Det4(e, p, k) == LET v(i) == IF i = k THEN p ELSE [d \in 1..3 |-> 4 * P(e, i)[d]] IN Det(Sub(v(2), v(1)), Sub(v(3), v(1)), Sub(v(4), v(1)))
Inside(e, p) == LET D == Det4(e, p, 0)  S == { Det4(e, p, k) * (IF D > 0 THEN 1 ELSE -1) : k \in 1..4 } IN
                IF \A x \in S : x > 0 THEN TRUE ELSE IF \E x \in S : x < 0 THEN FALSE ELSE "any"
KStep(s, op) ==
  LET n == op[1]  i == op[2] + 1  t(e) == [st |-> [s EXCEPT ![i] = e], res |-> "ok"]  r(x) == [st |-> s, res |-> x] IN
  CASE n = "new" -> IF op[3] = "Tet4" /\ AxisFlat(op[8]) THEN r("refused")
                    ELSE t([ty |-> op[3], k |-> op[4], id |-> op[5], lay |-> op[6], mat |-> op[7], cs |-> op[8], norm |-> op[9]])
    [] n = "clone" -> t(s[op[3] + 1])
    [] n = "drop" -> t(Void)
    [] n = "setV" -> t([s[i] EXCEPT !.cs[op[3]] = op[4]])
    [] n = "attr" -> t([s[i] EXCEPT !.lay = op[3], !.mat = op[4]])
    [] n = "linear" -> LET x == s[op[3] + 1] IN t([x EXCEPT !.ty = IF x.ty = "Tet10" THEN "Tet4" ELSE "Tri3", !.cs = Pick(x.cs, Vertices(x))])
    [] n = "face" -> LET x == s[op[3] + 1] IN
         t(IF op[5] = 3 THEN [Void EXCEPT !.ty = "Tri3", !.k = "R", !.lay = x.lay, !.mat = x.mat, !.cs = Pick(x.cs, SideVerts(x)[op[4] + 1])]
           ELSE [Void EXCEPT !.ty = "Tri6", !.k = "R", !.cs = Pick(x.cs, Sides(x)[op[4] + 1])])
    [] n = "eq" -> r([s[i] EXCEPT !.norm = <<>>] = [s[op[3] + 1] EXCEPT !.norm = <<>>])
    [] n = "coord" -> r(op[3] \in ToSet(s[i].cs))
    [] n = "inside" -> r(Inside(s[i], op[3]))
    [] n = "boxed" -> LET b == B!Mk(op[5], op[6]) IN
         IF B!Dim(b) # DimOf(op[3]) THEN r("refused")
         ELSE LET p == Place(op[7], B!Pos(b), <<>>) IN
              [st |-> [s EXCEPT ![i] = [Void EXCEPT !.ty = op[3], !.k = op[4], !.id = 9, !.cs = p[2]]], res |-> p[1]]
    [] n = "near" -> LET v == s[i]  q == s[op[3] + 1]                 \* which face of the volume is that surface
                        f == { x \in DOMAIN SideVerts(v) : { Id(v, y) : y \in ToSet(SideVerts(v)[x]) } = { Id(q, y) : y \in ToSet(Vertices(q)) } } IN
         r(IF f = {} THEN "refused" ELSE (CHOOSE x \in f : TRUE) - 1)
KInv(s) == \A i \in 1..4 : s[i].ty = "Tet4" => ~AxisFlat(s[i].cs)
KTrans(s, op, t) == \A i \in 1..4 : i # op[2] + 1 => t[i] = s[i]
=============================================================================
