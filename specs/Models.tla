------------------------------- MODULE Models -------------------------------
(* Physical models (src/core/physicalModel): registers holding models of     *)
(* every kind.  A model is [k kind, id, nm name, a arguments, ex extremes];   *)
(* its facts are derived from the arguments it was built with, whatever the  *)
(* chain of copies, clones and assignments that brought them there.          *)
(* Lengths, constants and angles are integers: halves of a unit, and quarter *)
(* turns for Euler angles, for which the rotation matrices are integer.      *)
EXTENDS Integers, Sequences, Json
MN == 4
NoM == [k |-> "-", id |-> 0, nm |-> "", a |-> <<>>, ex |-> <<>>]
YInit == [i \in 1..MN |-> NoM]
Bounds == {"bPEC", "bPMC", "bSMA", "bPML", "bPeriodic", "bMur1", "bMur2"}
Pred == {"PEC", "PMC", "SMA"}
Vols == {"Classic", "Dispersive", "DispFile", "PML", "Crystal", "Ferrite"}
Surfs == {"Multilayer", "SIBC", "SIBCFile"}
Wires == {"WireRL", "WireRLC", "WireFile", "Extremes"}
Ports == {"MPre", "MRLC", "MDisp"}
BoundName(k) == CASE k = "bPEC" -> "PEC" [] k = "bPMC" -> "PMC" [] k = "bSMA" -> "SMA" [] k = "bPML" -> "PML" [] k = "bPeriodic" -> "Periodic" [] k = "bMur1" -> "Mur1" [] k = "bMur2" -> "Mur2"
Name(k, n) == CASE k \in Bounds -> BoundName(k) [] k \in Pred /\ n = "" -> k [] OTHER -> n
B2I(b) == IF b THEN 1 ELSE 0
(* which constructions are refused *)
Files == {"disp.txt", "other.dat"}
BadArgs(k, a) ==
  CASE k = "Dispersive" -> a[4] # 0
    [] k = "DispFile" -> a[1] \notin Files
    [] k = "SIBCFile" -> a[2] # ".mibc"
    [] k = "Multilayer" -> (\E i \in 1..Len(a[1]) : a[1][i][2] = 0 \/ a[1][i][3] = 0) \/ Len(a[2]) > 1
    [] OTHER -> FALSE
(* rotation by Euler angles in quarter turns *)
Sn(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0
Cs(q) == Sn(q + 1)
Rot(e) == LET p == e[1]  t == e[2]  s == e[3] IN
  << << Cs(s) * Cs(p) - Sn(s) * Cs(t) * Sn(p), Cs(s) * Sn(p) + Sn(s) * Cs(t) * Cs(p), Sn(s) * Sn(t) >>,
     << (0 - Sn(s) * Cs(p)) - Cs(s) * Cs(t) * Sn(p), Cs(s) * Cs(t) * Cs(p) - Sn(s) * Sn(p), Cs(s) * Sn(t) >>,
     << Sn(t) * Sn(p), 0 - Sn(t) * Cs(p), Cs(t) >> >>
Sum3(f(_)) == f(1) + f(2) + f(3)
MMul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> LET g(k) == a[i][k] * b[k][j] IN Sum3(g)]]
Tr(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Global(e, m) == MMul(MMul(Rot(e), m), Tr(Rot(e)))
Diag(x, y, z) == << <<x, 0, 0>>, <<0, y, 0>>, <<0, 0, z>> >>
Zero33 == Diag(0, 0, 0)
Take(a, i, n) == SubSeq(a, i, i + n - 1)
(* facts of a model *)
ClassicFacts(a) ==
  LET c == [i \in 1..4 |-> IF i <= Len(a) THEN a[i] ELSE IF i <= 2 THEN 2 ELSE 0] IN
  << c[1], c[2], c[3], c[4], B2I(c = <<2, 2, 0, 0>>), c[1], c[2],
     IF c[1] <= 0 THEN "inf" ELSE c[2], IF c[2] <= 0 THEN "inf" ELSE IF c[1] <= 0 THEN 0 ELSE c[1] >>
(* the poles of a dispersive medium; a pole at zero is a conductivity, and its *)
(* residue is counted in the units that make it the conductivity itself       *)
DispPoles(a) == (IF a[3] # 0 THEN << <<0, 0, a[3], 0>> >> ELSE <<>>) \o a[5]
IsZero(p) == p[1] = 0 /\ p[2] = 0
Conductivity(ps) == LET z == { i \in 1..Len(ps) : IsZero(ps[i]) } IN
  IF z = {} THEN 0 ELSE ps[CHOOSE i \in z : \A j \in z : i <= j][3]
DispFacts(ps, f) ==
  LET simple == Len(ps) = 0 \/ (Len(ps) = 1 /\ IsZero(ps[1])) IN
  << ps, Conductivity(ps), B2I(f = "" /\ simple),
     IF f # "" \/ (Len(ps) = 1 /\ simple) THEN "any" ELSE B2I(ps # <<>>), f >>
Vec(T, v, o) == [i \in 1..3 |-> (LET g(k) == T[i][k] * v[k] IN Sum3(g)) + o[i]]
LocalFacts(e, o) == << e, o, Rot(e), Vec(Rot(e), <<1, 2, 3>>, o) >>
WireFacts(k, a) ==
  CASE k = "WireRL" -> << a[1], a[2], a[3], 0, 0, 0, 0, 0, 0, "" >>
    [] k = "WireRLC" -> Take(a, 1, 7) \o << 1, 0, "" >>
    [] k = "WireFile" -> << a[1], 0, 0, 0, 0, 0, 0, 0, 1, a[2] >>
PortFacts(k, a) == CASE k = "MRLC" -> << a[1], a[2], a[3], a[4] >> [] k = "MDisp" -> << 100, a[1] >> [] OTHER -> << a[1] >>
Facts(m) ==
  LET a == m.a IN
  CASE m.k = "Classic" -> ClassicFacts(a)
    [] m.k = "Dispersive" -> DispFacts(DispPoles(a), "")
    [] m.k = "DispFile" -> DispFacts(<<>>, a[1])
    [] m.k = "PML" -> LocalFacts(Take(a, 1, 3), Take(a, 4, 3)) \o << [i \in 1..3 |-> Rot(Take(a, 1, 3))[i][3]] >>
    [] m.k = "Crystal" -> LocalFacts(Take(a, 1, 3), Take(a, 4, 3)) \o << Take(a, 7, 3), a[10], Global(Take(a, 1, 3), Diag(a[7], a[8], a[9])), Global(Take(a, 1, 3), Diag(a[10], a[10], a[10])), Zero33, Zero33 >>
    [] m.k = "Ferrite" -> LocalFacts(Take(a, 1, 3), Take(a, 4, 3)) \o << Diag(a[9], a[9], a[9]), Global(Take(a, 1, 3), Diag(a[8], a[8], 2)), Global(Take(a, 1, 3), << <<0, a[7], 0>>, <<0 - a[7], 0, 0>>, <<0, 0, 0>> >>), Zero33, Zero33 >>
    [] m.k = "Multilayer" -> << [i \in 1..Len(a[1]) |-> a[1][i] \o << a[1][i][2], a[1][i][3], 0 >>], a[2] >>
    [] m.k = "SIBC" -> << a[1], a[2], a[3], Len(a[3]) >>
    [] m.k = "SIBCFile" -> << a[1] >>
    [] m.k \in {"WireRL", "WireRLC", "WireFile"} -> WireFacts(m.k, a)
    [] m.k = "Extremes" -> WireFacts(a[1], a[2]) \o << [i \in 1..2 |-> LET p == m.ex[i] IN IF p.k = "-" THEN <<>> ELSE << p.k, p.id, p.nm, PortFacts(p.k, p.a) >>] >>
    [] m.k \in Ports -> PortFacts(m.k, a)
    [] m.k = "Gap" -> << a[1] >>
    [] OTHER -> <<>>
Family(k) == << B2I(k \in Pred), B2I(k \in Vols), B2I(k \in Surfs), B2I(k \in Wires), B2I(k = "Extremes"), B2I(k \in Ports), B2I(k \in Bounds), B2I(k \in {"Crystal", "Ferrite"}), B2I(k = "Gap") >>
Shown(m) == IF m.k = "-" THEN <<>> ELSE << m.k, m.id, m.nm, Family(m.k), Facts(m) >>
YObs(st) == [i \in 1..MN |-> Shown(st[i])]
Ok(st) == [st |-> st, res |-> "ok"]
YStep(st, op) ==
  LET n == op[1]  r == op[2] IN
  CASE n = "new" -> IF BadArgs(op[3], op[6]) THEN [st |-> st, res |-> "refused"]
                    ELSE Ok([st EXCEPT ![r] = [k |-> op[3], id |-> op[4], nm |-> Name(op[3], op[5]), a |-> op[6], ex |-> <<>>]])
    [] n = "ends" -> LET w == st[op[4]] IN
         Ok([st EXCEPT ![r] = [k |-> "Extremes", id |-> w.id, nm |-> op[3], a |-> IF w.k = "Extremes" THEN w.a ELSE << w.k, w.a >>,
              ex |-> [i \in 1..2 |-> IF op[4 + i] = 0 THEN NoM ELSE st[op[4 + i]]]]])
    [] n \in {"clone", "copy", "assign"} -> Ok([st EXCEPT ![r] = st[op[3]]])
    [] n = "name" -> Ok([st EXCEPT ![r].nm = op[3]])
    [] n = "id" -> Ok([st EXCEPT ![r].id = op[3]])
    [] n = "drop" -> Ok([st EXCEPT ![r] = NoM])
    [] n = "end" -> Ok([st EXCEPT ![r].ex[op[3] + 1] = CASE op[4] = "none" -> NoM [] op[4] = "reg" -> st[op[5]] [] op[4] = "own" -> st[r].ex[op[5] + 1]])
    [] n = "swap" -> Ok([st EXCEPT ![r].ex = << st[r].ex[2], st[r].ex[1] >>])
(* properties of the specification *)
HasAxes(k) == k \in {"PML", "Crystal", "Ferrite"}
I33 == Diag(1, 1, 1)
Sound(m) ==
  /\ LET f == Family(m.k) IN m.k = "-" \/ f[1] + f[2] + f[3] + f[4] + f[6] + f[7] + f[9] = 1
  /\ HasAxes(m.k) => LET R == Rot(Take(m.a, 1, 3)) IN MMul(R, Tr(R)) = I33 /\ MMul(Tr(R), R) = I33
  /\ m.k = "Crystal" => LET f == Facts(m) IN f[7] = Tr(f[7]) /\ f[8] = Diag(m.a[10], m.a[10], m.a[10]) /\ f[7][1][1] + f[7][2][2] + f[7][3][3] = m.a[7] + m.a[8] + m.a[9]
  /\ m.k = "Ferrite" => LET f == Facts(m) IN f[6] = Tr(f[6]) /\ \A i \in 1..3, j \in 1..3 : f[7][i][j] = 0 - f[7][j][i]
  /\ m.k = "Classic" => LET f == Facts(m) IN f[5] = 1 => f[3] = 0 /\ f[4] = 0 /\ f[8] = f[9]
  /\ m.k = "Dispersive" => LET f == Facts(m) IN (f[3] = 1 /\ m.a[5] = <<>>) => f[2] = m.a[3]
  /\ ~BadArgs(m.k, m.a) \/ m.k = "-"
YInv(st) == \A i \in 1..MN : Sound(st[i])
YTrans(s, op, t) ==
  /\ \A i \in 1..MN : i # op[2] => t[i] = s[i]
  /\ op[1] \in {"clone", "copy", "assign"} => Shown(t[op[2]]) = Shown(s[op[3]])
  /\ op[1] \in {"name", "id"} => Facts(t[op[2]]) = Facts(s[op[2]])
=============================================================================
