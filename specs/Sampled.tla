------------------------------ MODULE Sampled ------------------------------
(* Sampled functions and the magnitudes built on them (src/core/math/        *)
(* function, src/core/source/magnitude): three files of samples and four     *)
(* slots with a sampled function, a magnitude or a numerical magnitude.      *)
(* A function is the sequence of its samples << x, Scale * y >> by x; its    *)
(* value between two samples is on the line joining them, and before the     *)
(* first and after the last it is theirs.  cv names the conversion a         *)
(* function comes from: its samples are then known only as a function.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
Scale == 144
Xs == [k \in 1..20 |-> k - 4]
NoFile == [e |-> FALSE, p |-> <<>>]
Empty == [k |-> "none", has |-> FALSE, p |-> <<>>, file |-> -1, cv |-> 0]
VInit == [f |-> << NoFile, NoFile, NoFile >>, s |-> << Empty, Empty, Empty, Empty >>, n |-> 0]
\* of several samples with the same argument the first one given is kept
RECURSIVE Insert(_, _)
Insert(p, x) == IF p = <<>> \/ x[1] < p[1][1] THEN << x >> \o p ELSE IF x[1] = p[1][1] THEN p ELSE << p[1] >> \o Insert(Tail(p), x)
Sorted(q) == FoldLeft(LAMBDA p, x : Insert(p, << x[1], Scale * x[2] >>), <<>>, q)
\* words << n >> are numbers and <<>> are not: pairs up to the first word that is not a number
RECURSIVE Pairs(_)
Pairs(w) == IF Len(w) < 2 \/ w[1] = <<>> THEN <<>> ELSE IF w[2] = <<>> THEN <<>> ELSE << << w[1][1], w[2][1] >> >> \o Pairs(SubSeq(w, 3, Len(w)))
Value(p, x) ==
  IF x <= p[1][1] THEN p[1][2] ELSE IF x >= p[Len(p)][1] THEN p[Len(p)][2]
  ELSE LET i == CHOOSE i \in 1..(Len(p) - 1) : p[i][1] <= x /\ x < p[i + 1][1] IN
       p[i][2] + (((p[i + 1][2] - p[i][2]) * (x - p[i][1])) \div (p[i + 1][1] - p[i][1]))
Values(o) == IF ~o.has THEN "none" ELSE IF o.p = <<>> THEN "refused" ELSE [k \in 1..Len(Xs) |-> Value(o.p, Xs[k])]
SameFun(a, b) == IF a.p = <<>> \/ b.p = <<>> THEN a.p = b.p ELSE \A k \in 1..Len(Xs) : Value(a.p, Xs[k]) = Value(b.p, Xs[k])
\* t: equal, f: different, u: the same function by samples of which nothing is said
EqFun(a, b) ==
  IF a.has # b.has THEN "f" ELSE IF ~a.has THEN "t"
  ELSE IF a.cv = b.cv THEN (IF a.p = b.p THEN "t" ELSE "f") ELSE IF SameFun(a, b) THEN "u" ELSE "f"
Eq(a, b) ==
  IF a.k = "none" \/ b.k = "none" \/ (a.k = "lin") # (b.k = "lin") THEN "n"
  ELSE IF a.k # b.k \/ a.file # b.file THEN "f" ELSE EqFun(a, b)
VObs(st) == [s |-> [i \in 1..4 |-> LET o == st.s[i] IN << o.k, o.file, Values(o) >>],
             q |-> [i \in 1..4 |-> [j \in 1..4 |-> Eq(st.s[i], st.s[j])]]]
\* the function sampled every h from 0 (before t), the default being a thousand times
Instants(h, t) == IF h = 0 THEN << t \div 1000, 1000 >> ELSE << h, t \div h >>
Sample(p, h, t) ==
  LET i == Instants(h, t)  m == IF i[2] * i[1] > 40 THEN (40 \div i[1]) + 1 ELSE i[2] IN [k \in 1..m |-> << (k - 1) * i[1], Value(p, (k - 1) * i[1]) >>]
VStep(st, op) ==
  LET n == op[1]
      Ok(t) == [st |-> t, res |-> "ok"]
      No == [st |-> st, res |-> "refused"]
      Put(i, o) == [st EXCEPT !.s[i + 1] = o]
      Slot(i) == st.s[i + 1]
      File(f) == st.f[f + 1]
      Fun(k, f, p) == [k |-> k, has |-> TRUE, p |-> p, file |-> f, cv |-> 0]
  IN
  CASE n = "file" -> Ok([st EXCEPT !.f[op[2] + 1] = [e |-> TRUE, p |-> Sorted(Pairs(op[3]))]])
    [] n = "rmfile" -> Ok([st EXCEPT !.f[op[2] + 1] = NoFile])
    [] n = "lin" -> Ok(Put(op[2], Fun("lin", -1, Sorted(op[3]))))
    [] n = "linfile" -> IF File(op[3]).p = <<>> THEN No ELSE Ok(Put(op[2], Fun("lin", -1, File(op[3]).p)))
    [] n = "mag" -> Ok(Put(op[2], [Slot(op[3]) EXCEPT !.k = "mag"]))
    [] n = "mag0" -> Ok(Put(op[2], [Empty EXCEPT !.k = "mag"]))
    [] n = "num" -> IF File(op[3]).p = <<>> THEN No ELSE Ok(Put(op[2], Fun("num", op[3], File(op[3]).p)))
    [] n = "num0" -> Ok(Put(op[2], [Empty EXCEPT !.k = "num"]))
    \* to slot op[2], of the magnitude in op[3], by file op[4] with step op[5] up to op[6]
    [] n = "conv" ->
         LET o == Slot(op[3])  p == IF o.k # "num" /\ o.has /\ o.p # <<>> THEN Sample(o.p, op[5], op[6]) ELSE <<>> IN
         IF o.k = "num" THEN Ok(Put(op[2], o))
         ELSE IF p = <<>> THEN [No EXCEPT !.st.f[op[4] + 1] = NoFile]
         ELSE Ok([Put(op[2], [k |-> "num", has |-> TRUE, p |-> p, file |-> op[4], cv |-> st.n + 1]) EXCEPT !.f[op[4] + 1] = NoFile, !.n = st.n + 1])
    [] n = "copy" -> Ok(Put(op[2], Slot(op[3])))
    \* a magnitude assigned from a numerical one takes its function
    [] n = "assign" -> Ok(Put(op[2], IF Slot(op[2]).k = "mag" THEN [Slot(op[3]) EXCEPT !.k = "mag", !.file = -1] ELSE Slot(op[3])))
    [] n = "drop" -> Ok(Put(op[2], Empty))
    [] n = "gauss" -> [st |-> st, res |-> << op[2] = op[3], op[2] >>]
    [] n = "band" -> [st |-> st, res |-> IF op[2] <= 0 \/ op[3] <= op[2] THEN "refused" ELSE << TRUE, op[2] = op[4] /\ op[3] = op[5] >>]
    [] n = "upto" -> [st |-> st, res |-> IF op[2] <= 0 THEN "refused" ELSE << 200, 1200, 0 >>]
\* what an operation may be asked: kinds that go together
VCan(st, op) ==
  LET Slot(i) == st.s[i + 1]  n == op[1] IN
  CASE n = "mag" -> Slot(op[3]).k = "lin"
    [] n = "conv" -> Slot(op[3]).k \in {"mag", "num"} /\ (Slot(op[3]).k = "mag" => Slot(op[3]).cv = 0)
    [] n = "copy" -> Slot(op[3]).k # "none"
    [] n = "assign" -> Slot(op[2]).k # "none" /\ (Slot(op[2]).k = Slot(op[3]).k \/ (Slot(op[2]).k = "mag" /\ Slot(op[3]).k = "num"))
    [] n = "drop" -> Slot(op[2]).k # "none"
    [] n = "rmfile" -> st.f[op[2] + 1].e
    [] OTHER -> TRUE
VInv(st) ==
  LET q == VObs(st).q IN
  \A i, j \in 1..4 :
    /\ q[i][j] = q[j][i]
    /\ st.s[i].k # "none" => q[i][i] = "t"
    /\ q[i][j] = "t" => Values(st.s[i]) = Values(st.s[j])
    /\ \A k \in 1..(Len(st.s[i].p) - 1) : st.s[i].p[k][1] < st.s[i].p[k + 1][1]
VTrans(s, op, t) ==
  LET n == op[1] IN
  /\ \A i \in 1..4 : t.s[i] # s.s[i] => i = op[2] + 1
  \* a conversion has the values of its source at the instants
  /\ (n = "conv" /\ s.s[op[3] + 1].k = "mag" /\ t.s # s.s) =>
       \A k \in 0..3 : k < Instants(op[5], op[6])[2] => Value(t.s[op[2] + 1].p, k * Instants(op[5], op[6])[1]) = Value(s.s[op[3] + 1].p, k * Instants(op[5], op[6])[1])
  /\ (n = "lin" /\ op[3] # <<>>) => \E k \in 1..Len(op[3]) : << op[3][k][1], Scale * op[3][k][2] >> \in { t.s[op[2] + 1].p[m] : m \in 1..Len(t.s[op[2] + 1].p) }
=============================================================================
