------------------------------- MODULE Devices -------------------------------
(* Output requests and sources: what they are created with, what they report, *)
(* and how copies, retargeting and changes of one register leave the others.  *)
(* Elements 1..3 are nodes, 4..6 lines, 7..10 surfaces (10 is vertical),      *)
(* 11..13 volumes; 3, 6 and 13 carry a material.  A magnitude is a sequence   *)
(* of samples <<time, value>>, a domain the eleven settings of a request.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
Void == [c |-> "-", name |-> "", ty |-> 0, dom |-> <<>>, els |-> <<>>, par |-> <<>>, mag |-> <<>>]
QInit == << Void, Void, Void >>
Same1(a, b) == ToJson(a) = ToJson(b)
Outs == {"elem", "nod", "lin", "surf", "vol", "bulk", "far"}
WithMat == {3, 6, 13}
NoDomain == << FALSE, 0, 0, 0, FALSE, 0, 0, 0, FALSE, FALSE, "" >>
\* a transfer function's file is kept only where it is used
Dom(d) == IF d[10] THEN d ELSE [d EXCEPT ![11] = ""]
DomType(d) == LET k == (IF d[1] THEN 4 ELSE 0) + (IF d[5] THEN 2 ELSE 0) + (IF d[10] THEN 1 ELSE 0) IN
              << "NONE", "TRAN", "FREQ", "FRTR", "TIME", "TITR", "TIFR", "ALL" >>[k + 1]
\* horizontal surfaces: <<x, y, width, height>>; 10 stands upright
Rect == (7 :> <<0, 0, 2, 1>>) @@ (8 :> <<2, 0, 2, 1>>) @@ (9 :> <<0, 1, 4, 3>>)
MinI(X) == CHOOSE m \in X : \A x \in X : m <= x
MaxI(X) == CHOOSE m \in X : \A x \in X : x <= m
Flat(els) == els # <<>> /\ ToSet(els) \subseteq {7, 8, 9}
Bound(els) == LET S == ToSet(els) IN
  << << MinI({ Rect[i][1] : i \in S }), MinI({ Rect[i][2] : i \in S }), 0 >>,
     << MaxI({ Rect[i][1] + Rect[i][3] : i \in S }), MaxI({ Rect[i][2] + Rect[i][4] : i \in S }), 0 >> >>
Width(els) == Bound(els)[2][1] - Bound(els)[1][1]
Height(els) == Bound(els)[2][2] - Bound(els)[1][2]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Zero == <<0, 0, 0>>
Sn(q) == << 0, 1, 0, -1 >>[(q % 4) + 1]      \* sine and cosine of quarter turns
Cn(q) == Sn(q + 1)
Polar(t, p) == << Sn(t) * Cn(p), Sn(t) * Sn(p), Cn(t) >>
Wave(par) == IF par[1] = "v" THEN << << par[2], par[3], par[4] >>, << par[5], par[6], par[7] >> >>
             ELSE << Polar(par[2], par[3]), Polar(par[4], par[5]) >>
\* parameters without physical meaning
Bad(c, els, par) ==
  CASE c = "pw" -> par[1] # "r" /\ LET w == Wave(par) IN w[1] = Zero \/ w[2] = Zero \/ Dot(w[1], w[2]) # 0
    [] c = "wg" -> ~Flat(els) \/ (par[2] = 0 /\ par[3] = 0)
    [] OTHER -> FALSE
Name(c) == CASE c = "gen" -> "Generator" [] c = "line" -> "OnLine" [] c = "pw" -> "PlaneWave" [] c = "dip" -> "Dipole"
             [] c = "wg" -> "Rectangular_waveguide_port" [] c = "tem" -> "Coaxial_TEM_port"
\* what the accessors report beyond elements and magnitude
Info(x) == CASE x.c = "pw" -> IF x.par[1] = "r" THEN << Zero, Zero, TRUE, x.par[2], x.par[3], Zero, Zero >> ELSE Wave(x.par) \o << FALSE, 0, 0 >> \o Wave(x.par)  \* and the vectors its angles give
             [] x.c = "wg" -> x.par \o << Bound(x.els)[1], Width(x.els), Height(x.els) >>
             [] x.c = "gen" -> << x.par[1], IF x.par[1] = 1 THEN "Voltage" ELSE "Current" >>
             [] x.c = "line" -> << x.par[1], x.par[2], IF x.par[1] = 1 THEN "Electric Field" ELSE "Magnetic Field", IF x.par[2] = 1 THEN "Hard" ELSE "Soft" >>
             [] x.c = "tem" -> << x.par[1], x.par[2], (840 * x.par[4]) \div x.par[3] >>
             [] OTHER -> x.par
Obs(x) == IF x.c = "-" THEN <<>>
          ELSE IF x.c \in Outs THEN << x.c, x.name, x.ty, x.dom, DomType(x.dom), x.els, x.par >>
          ELSE << x.c, Name(x.c), x.els, x.mag, Info(x) >>
QObs(s) == << [i \in 1..3 |-> Obs(s[i])], "apart" >>
\* port fields at a point, multiplied by 27720 (rectangular guide, where sines and cosines are of quarter turns) or as a direction (coaxial)
S == 27720
Field(x, p) ==
  IF x.c = "wg" THEN
    LET o == Bound(x.els)[1]  w == Width(x.els)  h == Height(x.els)  m == x.par[2]  n == x.par[3]
        qx == 2 * m * (p[1] - o[1])  qy == 2 * n * (p[2] - o[2])     \* quarter turns times w, h
        a == qx \div w  b == qy \div h
        k == IF m * h > n * w THEN m * h ELSE n * w IN
    IF qx % w # 0 \/ qy % h # 0 THEN "any"
    ELSE IF x.par[1] = "TE" THEN << -((n * w * S * Cn(a) * Sn(b)) \div k), (m * h * S * Sn(a) * Cn(b)) \div k, 0 >>
    ELSE << -((m * h * S * Cn(a) * Sn(b)) \div k), -((n * w * S * Sn(a) * Cn(b)) \div k), 0 >>
  ELSE LET r == [d \in 1..3 |-> 2 * p[d] - x.par[2][d]]  t == IF x.par[1] = "voltage" THEN r ELSE Cross(<<0, 0, 1>>, r) IN  \* origins are kept in halves
    IF Cardinality({ d \in 1..3 : r[d] # 0 }) # 1 \/ r[3] # 0 THEN "any" ELSE [d \in 1..3 |-> S * (IF t[d] > 0 THEN 1 ELSE IF t[d] < 0 THEN -1 ELSE 0)]
At(mag, t) == mag[CHOOSE i \in DOMAIN mag : mag[i][1] = t][2]
Times(v, k) == [d \in 1..3 |-> v[d] * k]
\* a coaxial port is moved to the middle of its surfaces (origins are kept in halves)
Retarget(x, els) == IF x.c = "tem" THEN LET b == Bound(els) IN [x EXCEPT !.els = els, !.par[2] = [d \in 1..3 |-> b[1][d] + b[2][d]]]
                    ELSE [x EXCEPT !.els = els]
QStep(s, op) ==
  LET n == op[1]  i == op[2] + 1  t(x) == [st |-> [s EXCEPT ![i] = x], res |-> "ok"]  r(x) == [st |-> s, res |-> x] IN
  CASE n = "out" -> IF op[3] \in {"elem", "nod", "lin", "surf", "vol"} /\ op[5] \in {5, 6} /\ ToSet(op[7]) \cap WithMat # {} THEN r("refused")
                    ELSE t([Void EXCEPT !.c = op[3], !.name = op[4], !.ty = IF op[3] = "bulk" THEN 5 ELSE IF op[3] = "far" THEN 9 ELSE op[5], !.dom = Dom(op[6]), !.els = op[7], !.par = op[8]])
    [] n = "src" -> IF Bad(op[3], op[5], op[6]) THEN r("refused")
                    ELSE t([Void EXCEPT !.c = op[3], !.mag = op[4], !.els = op[5], !.par = op[6]])
    [] n \in {"clone", "copy"} -> t(s[op[3] + 1])
    [] n = "base" -> t([s[op[3] + 1] EXCEPT !.c = "elem", !.els = <<>>, !.par = <<>>])
    [] n = "drop" -> t(Void)
    [] n = "set" -> IF s[i].c = "tem" /\ ~Flat(op[3]) THEN r("refused") ELSE t(Retarget(s[i], op[3]))
    [] n = "add" -> t([s[i] EXCEPT !.els = @ \o op[3]])
    [] n = "name" -> t([s[i] EXCEPT !.name = op[3]])
    [] n = "final" -> t([s[i] EXCEPT !.dom[3] = op[3]])
    [] n = "sampling" -> t([s[i] EXCEPT !.dom[4] = op[3]])
    [] n = "domain" -> t([s[i] EXCEPT !.dom = Dom(op[3])])
    [] n = "eqdom" -> r(s[i].dom = s[op[3] + 1].dom)
    [] n = "eqmag" -> r(s[i].mag = s[op[3] + 1].mag)
    [] n = "weight" -> r(Field(s[i], op[3]))
    [] n = "field" -> LET w == Wave(s[i].par)  e == Times(w[2], At(s[i].mag, op[3])) IN IF Dot(w[1], w[1]) # 1 THEN r("any") ELSE r(<< e, Cross(w[1], e) >>)
QInv(s) == \A i \in 1..3 : LET x == s[i] IN
  /\ x.c \in Outs => x.dom[10] \/ x.dom[11] = ""
  /\ x.c = "pw" /\ x.par[1] # "r" => Dot(Wave(x.par)[1], Wave(x.par)[2]) = 0
  \* on the walls of a rectangular guide (perfect conductors) the field along the wall vanishes
  /\ x.c = "wg" => \A px \in 0..Width(x.els), py \in 0..Height(x.els) :
       LET o == Bound(x.els)[1]  f == Field(x, << o[1] + px, o[2] + py, 0 >>) IN
       IF Same1(f, "any") THEN TRUE ELSE (px \in {0, Width(x.els)} => f[2] = 0) /\ (py \in {0, Height(x.els)} => f[1] = 0)
QTrans(s, op, t) ==
  /\ \A i \in 1..3 : i # op[2] + 1 => t[i] = s[i]
  /\ op[1] \in {"set", "add"} => \A i \in 1..3 : [t[i] EXCEPT !.els = <<>>, !.par = <<>>] = [s[i] EXCEPT !.els = <<>>, !.par = <<>>]
=============================================================================
