------------------------------- MODULE DataSet -------------------------------
(* Registers holding data sets: a mesh (module Mesh), materials, sources,    *)
(* output requests and solver settings, each possibly absent.  Elements of   *)
(* sources and requests are elements of the data set's own mesh ("own"); of  *)
(* a data set without a mesh they are elements of no mesh ("free").          *)
EXTENDS Mesh
NoData == [on |-> FALSE, mesh |-> Nothing, mats |-> <<>>, srcs |-> <<>>, outs |-> <<>>, sol |-> <<>>]
DInit == << NoData, NoData, NoData >>
\* an optional list: <<>> is absent, <<list>> is present
Opt(q) == IF q = <<>> THEN "absent" ELSE q[1]
WithL(q, F(_)) == << F(q[1]) >>
Put(q, k, v) == << [q[1] EXCEPT ![k] = v] >>
Without(q, k) == << SubSeq(q[1], 1, k - 1) \o SubSeq(q[1], k + 1, Len(q[1])) >>
SubM(x, op) == [x EXCEPT !.mesh = MStep(<< x.mesh, Nothing, Nothing >>, << op[3], 0 >> \o SubSeq(op, 4, Len(op))).st[1]]
DStep(s, op) ==
  LET n == op[1]  i == op[2] + 1  x == s[i]  t(y) == [st |-> [s EXCEPT ![i] = y], res |-> "ok"] IN
  CASE n = "build" -> LET m == op[3] IN
         t([on |-> TRUE, mesh |-> IF m = <<>> THEN Nothing ELSE Mk(m[1], m[2], m[3], m[4], m[5]), mats |-> op[4], srcs |-> op[5], outs |-> op[6], sol |-> op[7]])
    [] n \in {"copy", "clone", "assign"} -> t([s[op[3] + 1] EXCEPT !.on = TRUE])
    [] n = "drop" -> t(NoData)
    [] n = "mesh" -> t(SubM(x, op))                       \* an edition of the mesh
    [] n = "srcSet" -> t([x EXCEPT !.srcs = Put(@, op[3], << @[1][op[3]][1], op[4] >>)])
    [] n = "outSet" -> t([x EXCEPT !.outs = Put(@, op[3], << @[1][op[3]][1], @[1][op[3]][2], op[4] >>)])
    [] n = "outName" -> t([x EXCEPT !.outs = Put(@, op[3], << @[1][op[3]][1], op[4], @[1][op[3]][3] >>)])
    [] n = "srcDel" -> t([x EXCEPT !.srcs = Without(@, op[3])])
    [] n = "outDel" -> t([x EXCEPT !.outs = Without(@, op[3])])
    [] n = "matAdd" -> t([x EXCEPT !.mats = << Append(@[1], << op[3], op[4] >>) >>])
    [] n = "matName" -> t([x EXCEPT !.mats = << MapS(LAMBDA a : IF a[1] = op[3] THEN << a[1], op[4] >> ELSE a, @[1]) >>])
    [] n = "solver" -> t([x EXCEPT !.sol = << op[3] >>])
\* a mesh edition gives an element a material of the data set, if it has materials
Place(x, ids) == MapS(LAMBDA k : << k, IF x.mesh.k = "-" THEN "free" ELSE "own" >>, ids)
ObsD(x) == IF ~x.on THEN <<"none">> ELSE
  << ObsM(x.mesh), Opt(x.mats), IF x.srcs = <<>> THEN "absent" ELSE MapS(LAMBDA a : << a[1], Place(x, a[2]) >>, x.srcs[1]),
     IF x.outs = <<>> THEN "absent" ELSE MapS(LAMBDA a : << a[1], a[2], Place(x, a[3]) >>, x.outs[1]), Opt(x.sol),
     IF x.mats = <<>> \/ x.mesh.k = "-" THEN "-" ELSE "own models" >>
ObsAll(s) == << MapS(ObsD, s), "apart" >>
DInv(s) == \A i \in 1..3 : LET x == s[i] IN
  /\ ~x.on => x = NoData
  /\ x.mesh.k # "-" => /\ x.srcs # <<>> => \A k \in 1..Len(x.srcs[1]) : ToSet(x.srcs[1][k][2]) \subseteq Ids(x.mesh.es)
                       /\ x.outs # <<>> => \A k \in 1..Len(x.outs[1]) : ToSet(x.outs[1][k][3]) \subseteq Ids(x.mesh.es)
                       /\ x.mats # <<>> => \A e \in ToSet(x.mesh.es) : e.mat \in { a[1] : a \in ToSet(x.mats[1]) } \cup {0}
DTrans(s, op, t) == \A i \in 1..3 : i # op[2] + 1 => t[i] = s[i]
=============================================================================
