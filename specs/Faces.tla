-------------------------------- MODULE Faces --------------------------------
(* Which elements meet across the faces of a conforming mesh of volumes and   *)
(* surfaces.  The state is the mesh, a sequence of elements that share        *)
(* coordinates; faces are pairs <<element, side>>.                            *)
EXTENDS Kinds
FInit == <<>>
Solid(e) == e.ty \in {"Tet4", "Tet10", "Hex8"}
Ids(e, q) == { Id(e, i) : i \in ToSet(q) }
\* the coordinates of every side of every element (of a surface: its own)
Table(m) == TLCEval([i \in DOMAIN m |-> IF Solid(m[i]) THEN TLCEval([f \in DOMAIN Sides(m[i]) |-> Ids(m[i], Sides(m[i])[f])]) ELSE << Ids(m[i], All(m[i])) >>])
FacesWith(m, T, ids) == UNION { { << i, f >> : f \in { f \in DOMAIN T[i] : T[i][f] = ids } } : i \in { i \in DOMAIN m : Solid(m[i]) } }
Across(m, T, x) == FacesWith(m, T, T[x[1]][x[2]]) \ {x}
SurfOn(m, T, ids) == { i \in DOMAIN m : ~Solid(m[i]) /\ T[i][1] = ids }
SideNormal(e, f) == Normal(e, SideVerts(e)[f])
Same2(a, b) == Cross(a, b) = Zero /\ Dot(a, b) > 0
SurfNormal(e) == Normal(e, Vertices(e))
Touching(m, T, i) == FacesWith(m, T, T[i][1])
Inner(m, T, i) == LET F == Touching(m, T, i) IN
               IF Cardinality(F) <= 1 THEN F ELSE { x \in F : Same2(SideNormal(m[x[1]], x[2]), SurfNormal(m[i])) }
Outer(m, T, i) == Touching(m, T, i) \ Inner(m, T, i)
One(m, F) == IF F = {} THEN <<>> ELSE LET x == CHOOSE x \in F : TRUE IN << m[x[1]].id, x[2] - 1 >>
FObs(m) == LET T == Table(m) IN [i \in DOMAIN m |->
  IF Solid(m[i]) THEN << m[i].id, [f \in DOMAIN T[i] |-> LET a == Across(m, T, << i, f >>)  s == SurfOn(m, T, T[i][f]) IN
                          << One(m, a), a = {}, IF s = {} THEN 0 ELSE m[CHOOSE k \in s : TRUE].id >>] >>
  ELSE << m[i].id, One(m, Inner(m, T, i)), One(m, Outer(m, T, i)), Outer(m, T, i) = {} >>]
Elem(op) == [Void EXCEPT !.id = op[2], !.ty = op[3], !.k = "R", !.cs = op[4]]
FStep(m, op) ==
  CASE op[1] = "add" -> [st |-> Append(m, Elem(op)), res |-> << Len(m) + 1, TRUE >>]
    [] op[1] = "drop" -> LET r == SelectSeq(m, LAMBDA e : e.id # op[2]) IN [st |-> r, res |-> << Len(r), TRUE >>]
\* a mesh is conforming: a face belongs to at most two volumes, which see it from opposite sides, and to at most one surface
Fine(m, T, i) ==
    IF Solid(m[i]) THEN \A f \in DOMAIN T[i] : LET a == Across(m, T, << i, f >>) IN
        /\ Cardinality(a) <= 1 /\ Cardinality(SurfOn(m, T, T[i][f])) <= 1
        /\ \A x \in a : Same2(SideNormal(m[i], f), [d \in 1..3 |-> -SideNormal(m[x[1]], x[2])[d]])
    ELSE Cardinality(SurfOn(m, T, T[i][1])) = 1
Conforming(m) == LET T == Table(m) IN \A i \in DOMAIN m : Fine(m, T, i)
\* the relation is reciprocal, and a surface between two volumes has one on each side
FInv(m) == Conforming(m) => LET T == Table(m) IN
  \A i \in DOMAIN m :
    IF Solid(m[i]) THEN \A f \in DOMAIN T[i] : \A x \in Across(m, T, << i, f >>) : Across(m, T, x) = { << i, f >> }
    ELSE /\ Cardinality(Inner(m, T, i)) <= 1 /\ Cardinality(Outer(m, T, i)) <= 1
         /\ Cardinality(Touching(m, T, i)) = 2 => Cardinality(Inner(m, T, i)) = 1 /\ Cardinality(Outer(m, T, i)) = 1
         /\ \A x \in Inner(m, T, i) : SurfOn(m, T, T[x[1]][x[2]]) = {i}
\* adding an element changes only what is across its own sides
FTrans(m, op, t) ==
  op[1] = "add" => LET T == Table(m)  U == Table(t) IN \A i \in DOMAIN m : Solid(m[i]) => \A f \in DOMAIN T[i] :
     Across(m, T, << i, f >>) # {} => { x \in Across(t, U, << i, f >>) : x[1] # Len(t) } = Across(m, T, << i, f >>)
=============================================================================
