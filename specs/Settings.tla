------------------------------ MODULE Settings ------------------------------
(* Settings trees (src/core/argument/Object.h).  Two variables hold a tree   *)
(* each: <<"n">> nothing, <<"s", words>> a text, <<"a", trees>> an array,    *)
(* <<"d", << name, tree >> ...>> a dictionary in order of insertion.  A      *)
(* place is a variable and a path of names; "#k" is the k-th element.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
Null == <<"n">>
Dict(q) == <<"d", q>>
Arr(q) == <<"a", q>>
Txt(w) == <<"s", w>>
OInit == << Null, Null >>
Index == << "#0", "#1", "#2", "#3", "#4", "#5", "#6", "#7", "#8", "#9" >>
IsIndex(s) == \E k \in 1..Len(Index) : Index[k] = s
IdxOf(s) == CHOOSE k \in 1..Len(Index) : Index[k] = s
Kids(t) == IF t[1] \in {"d", "a"} THEN t[2] ELSE <<>>
Names(t) == IF t[1] = "d" THEN [i \in 1..Len(t[2]) |-> t[2][i][1]] ELSE <<>>
Kid(t, i) == IF t[1] = "d" THEN t[2][i][2] ELSE t[2][i]
Find(t, n) == IF \E i \in 1..Len(Names(t)) : Names(t)[i] = n THEN CHOOSE i \in 1..Len(Names(t)) : Names(t)[i] = n ELSE 0
At(t, step) == IF IsIndex(step) THEN (IF IdxOf(step) <= Len(Kids(t)) THEN IdxOf(step) ELSE 0) ELSE Find(t, step)
RECURSIVE Get(_, _)
Get(t, p) == IF p = <<>> THEN t ELSE Get(Kid(t, At(t, p[1])), Tail(p))
RECURSIVE Has(_, _)
Has(t, p) == p = <<>> \/ (At(t, p[1]) # 0 /\ Has(Kid(t, At(t, p[1])), Tail(p)))
WithKid(t, i, x) == IF t[1] = "d" THEN Dict([t[2] EXCEPT ![i] = << @[1], x >>]) ELSE Arr([t[2] EXCEPT ![i] = x])
RECURSIVE Put(_, _, _)
Put(t, p, x) == IF p = <<>> THEN x ELSE LET i == At(t, p[1]) IN WithKid(t, i, Put(Kid(t, i), Tail(p), x))
AsDict(t) == IF t[1] = "d" THEN t ELSE Dict(<<>>)
AsArr(t) == IF t[1] = "a" THEN t ELSE Arr(<<>>)
Member(t, n, x) == LET d == AsDict(t) IN IF Find(d, n) # 0 THEN WithKid(d, Find(d, n), x) ELSE Dict(Append(d[2], << n, x >>))
Exists(t, n) == Find(t, n) # 0 /\ Kid(t, Find(t, n))[1] # "n"
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF a[1] = "n" THEN b ELSE IF b[1] = "n" THEN a
  ELSE IF a[1] = "d" /\ b[1] = "d" THEN
    LET both == Dict([i \in 1..Len(a[2]) |-> << a[2][i][1], IF Find(b, a[2][i][1]) # 0 THEN Merge(a[2][i][2], Kid(b, Find(b, a[2][i][1]))) ELSE a[2][i][2] >>])
    IN Dict(both[2] \o SelectSeq(b[2], LAMBDA m : Find(a, m[1]) = 0))
  ELSE IF a[1] = "d" THEN a ELSE b
(* the text printed for a tree, all values shown as texts *)
RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN "" ELSE " " \o Blanks(n - 1)
RECURSIVE Quoted(_)
Quoted(w) == IF w = <<>> THEN "" ELSE "\"" \o w[1] \o "\"" \o (IF Len(w) > 1 THEN " " ELSE "") \o Quoted(Tail(w))
RECURSIVE Printed(_, _)
RECURSIVE PrintKids(_, _, _)
Printed(t, d) == CASE t[1] = "n" -> "null" [] t[1] = "s" -> Quoted(t[2]) [] t[1] = "a" -> "[\n" \o PrintKids(t, 1, d) \o Blanks(d) \o "]" [] t[1] = "d" -> "{\n" \o PrintKids(t, 1, d) \o Blanks(d) \o "}"
PrintKids(t, i, d) == IF i > Len(Kids(t)) THEN "" ELSE Blanks(d + 2) \o (IF t[1] = "d" THEN "\"" \o t[2][i][1] \o "\" : " ELSE "") \o Printed(Kid(t, i), d + 2) \o (IF i < Len(Kids(t)) THEN ",\n" ELSE "\n") \o PrintKids(t, i + 1, d)
OObs(s) == << s[1], s[2], Printed(s[1], 0) \o "\n", Printed(s[2], 0) \o "\n" >>
OStep(s, op) ==
  LET n == op[1]
      t(x) == [st |-> x, res |-> "ok"]
      here == Get(s[op[2]], op[3])
      set(x) == t([s EXCEPT ![op[2]] = Put(@, op[3], x)])
      there == Get(s[op[4]], op[5]) IN
  CASE n = "plant" -> t(<< op[2], op[3] >>)
    [] n = "words" -> set(Txt(op[4]))
    [] n = "null" -> set(Null)
    [] n = "object" -> set(AsDict(here))
    [] n = "array" -> set(AsArr(here))
    [] n = "reset" -> set(here)
    [] n = "touch" -> set(IF Find(AsDict(here), op[4]) # 0 THEN here ELSE Member(here, op[4], Null))
    [] n = "fill" -> set(Member(here, op[4], Txt(op[5])))
    [] n = "push" -> set(Arr(Append(AsArr(here)[2], Txt(op[4]))))
    [] n = "member" -> set(Member(here, op[6], there))
    [] n = "value" -> set(Arr(Append(AsArr(here)[2], there)))
    [] n = "assign" -> set(there)
    [] n = "take" -> IF op[2] = op[4] THEN set(there) ELSE t([[s EXCEPT ![op[2]] = Put(@, op[3], there)] EXCEPT ![op[4]] = Null])
    [] n = "merge" -> set(Merge(here, there))
    [] n = "sum" -> t([s EXCEPT ![op[2]] = Merge(Get(s[1], op[3]), Get(s[2], op[5]))])
    [] n = "erase" -> set(IF Exists(here, op[4]) THEN Dict(Without(here[2], Find(here, op[4]))) ELSE here)
    [] n = "eraseAt" -> set(IF here[1] = "a" THEN Arr(Without(here[2], op[4])) ELSE here)
    [] n = "ask" -> [st |-> s, res |-> IF Find(here, op[4]) = 0 THEN << "refused", FALSE >> ELSE << "there", Exists(here, op[4]) >>]
(* properties of the specification *)
RECURSIVE Sound(_)
Sound(t) == Cardinality(ToSet(Names(t))) = Len(Names(t)) /\ \A i \in 1..Len(Kids(t)) : Sound(Kid(t, i))
RECURSIVE Texts(_)
\* the texts stored in a tree of dictionaries, by path
Texts(t) == IF t[1] \in {"s", "a"} THEN { << <<>>, t >> } ELSE IF t[1] = "n" THEN {} ELSE UNION { { << << Names(t)[i] >> \o x[1], x[2] >> : x \in Texts(Kid(t, i)) } : i \in 1..Len(Kids(t)) }
OInv(s) ==
  /\ Sound(s[1]) /\ Sound(s[2])
  /\ Merge(s[1], s[1]) = s[1] /\ Sound(Merge(s[1], s[2]))
  /\ LET m == Merge(s[1], s[2]) IN
     /\ \A x \in Texts(s[2]) : x \in Texts(m) \/ (Has(s[1], x[1]) /\ Get(s[1], x[1])[1] = "d")
     /\ \A x \in Texts(s[1]) : x \in Texts(m) \/ (Has(s[2], x[1]) /\ Get(s[2], x[1])[1] # "n") \/ (\E k \in 1..Len(x[1]) : Has(s[2], SubSeq(x[1], 1, k)) /\ Get(s[2], SubSeq(x[1], 1, k))[1] # "n")
OTrans(s, op, t) ==
  /\ op[1] \notin {"take", "ask", "plant"} => t[3 - op[2]] = s[3 - op[2]]
  /\ op[1] = "erase" => \A x \in Texts(Get(s[op[2]], op[3])) : x[1] = <<>> \/ x[1][1] = op[4] \/ x \in Texts(Get(t[op[2]], op[3]))
  /\ op[1] = "member" => Get(t[op[2]], Append(op[3], op[6])) = Get(s[op[4]], op[5])
  /\ op[1] = "fill" /\ Get(s[op[2]], op[3])[1] = "d" => \A x \in Texts(Get(s[op[2]], op[3])) : x[1][1] = op[4] \/ x \in Texts(Get(t[op[2]], op[3]))
=============================================================================
