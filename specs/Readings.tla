------------------------------ MODULE Readings ------------------------------
(* Typed readings of textual settings (src/core/argument/Object.hpp and      *)
(* StringParser.h).  A setting holds words; each word is a sequence of       *)
(* one-character strings.  A reading for a sequence of types i (integer),    *)
(* r (real), b (boolean), s (text), v (as many integers as there are) takes  *)
(* from the front of the words what each type spells and is refused unless   *)
(* everything is used.  Reals are << negative, digits, exponent >>, the      *)
(* digits without zeros at either end.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
RInit == << "n", <<>> >>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val(c) == CHOOSE k \in 0..9 : ToString(k) = c
RECURSIVE Run(_)
Run(q) == IF q # <<>> /\ q[1] \in Digits THEN << q[1] >> \o Run(Tail(q)) ELSE <<>>
RECURSIVE LTrim(_)
LTrim(q) == IF q # <<>> /\ q[1] = " " THEN LTrim(Tail(q)) ELSE q
RECURSIVE RTrim(_)
RTrim(q) == IF q # <<>> /\ q[Len(q)] = " " THEN RTrim(SubSeq(q, 1, Len(q) - 1)) ELSE q
Trim(q) == LTrim(RTrim(q))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
RECURSIVE NoZeros(_)
NoZeros(q) == IF q # <<>> /\ q[1] = "0" THEN NoZeros(Tail(q)) ELSE q
RECURSIVE NoEndZeros(_)
NoEndZeros(q) == IF q # <<>> /\ q[Len(q)] = "0" THEN NoEndZeros(SubSeq(q, 1, Len(q) - 1)) ELSE q
Cat(q) == FoldLeft(LAMBDA a, c : a \o c, "", q)
RECURSIVE Least(_, _)
\* decimal digits without leading zeros: not above the limit
Least(d, l) == IF d = <<>> THEN TRUE ELSE IF Val(d[1]) # Val(l[1]) THEN Val(d[1]) < Val(l[1]) ELSE Least(Tail(d), Tail(l))
MaxInt == << "2", "1", "4", "7", "4", "8", "3", "6", "4", "7" >>
Fits(d) == Len(d) < 10 \/ (Len(d) = 10 /\ Least(d, MaxInt))
ToInt(d) == FoldLeft(LAMBDA a, c : a * 10 + Val(c), 0, d)
Fail == [ok |-> FALSE, val |-> "refused", rest |-> <<>>]
Read(v, rest) == [ok |-> TRUE, val |-> v, rest |-> Trim(rest)]
Sign(q) == IF q # <<>> /\ q[1] \in {"+", "-"} THEN 1 ELSE 0
Neg(q) == q # <<>> /\ q[1] = "-"
Whole(text) == LET q == LTrim(text)  d == Run(Drop(q, Sign(q))) IN
  IF d = <<>> \/ ~Fits(NoZeros(d)) THEN Fail ELSE Read(IF Neg(q) THEN -ToInt(NoZeros(d)) ELSE ToInt(NoZeros(d)), Drop(q, Sign(q) + Len(d)))
Bool(text) == LET r == Whole(text) IN IF r.ok /\ r.val \in {0, 1} THEN [r EXCEPT !.val = (r.val = 1)] ELSE Fail
Normal(neg, d, e) == LET z == NoEndZeros(d)  x == NoZeros(z) IN IF x = <<>> THEN << FALSE, "", 0 >> ELSE << neg, Cat(x), e + Len(d) - Len(z) >>
RealParts(text) ==
  LET q == LTrim(text)  s == Sign(q)  a == Run(Drop(q, s))
      dot == s + Len(a) < Len(q) /\ q[s + Len(a) + 1] = "."
      b == IF dot THEN Run(Drop(q, s + Len(a) + 1)) ELSE <<>>
      n == s + Len(a) + (IF dot THEN 1 ELSE 0) + Len(b)
      sci == n < Len(q) /\ q[n + 1] \in {"e", "E"} /\ Len(a) + Len(b) > 0
      x == Drop(q, n + 1)  es == Sign(x)  ed == Run(Drop(x, es))
  IN [ok |-> Len(a) + Len(b) > 0 /\ (sci => ed # <<>>), neg |-> Neg(q), d |-> a \o b,
      e |-> (IF sci /\ ed # <<>> THEN (IF Neg(x) THEN -ToInt(NoZeros(ed)) ELSE ToInt(NoZeros(ed))) ELSE 0) - Len(b),
      rest |-> IF sci THEN Drop(q, n + 1 + es + Len(ed)) ELSE Drop(q, n)]
RealOf(text) == LET p == RealParts(text) IN IF p.ok THEN Read(Normal(p.neg, p.d, p.e), p.rest) ELSE Fail
Text(text) == IF text = <<>> THEN Fail ELSE [ok |-> TRUE, val |-> Cat(text), rest |-> <<>>]
One(t, text) == CASE t = "i" -> Whole(text) [] t = "b" -> Bool(text) [] t = "r" -> RealOf(text) [] t = "s" -> Text(text)
Join(ws) == IF ws = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, w : a \o << " " >> \o w, ws[1], Tail(ws))
\* the fewest words that spell the type
RECURSIVE Take(_, _, _)
Take(t, ws, k) ==
  IF k > Len(ws) THEN [ok |-> FALSE, val |-> "refused", left |-> ws]
  ELSE LET r == One(t, Join(SubSeq(ws, 1, k))) IN
       IF r.ok THEN [ok |-> TRUE, val |-> r.val, left |-> (IF r.rest = <<>> THEN <<>> ELSE << r.rest >>) \o Drop(ws, k)] ELSE Take(t, ws, k + 1)
RECURSIVE Many(_, _)
Many(t, ws) == LET r == Take(t, ws, 1) IN IF ws = <<>> \/ ~r.ok THEN [ok |-> TRUE, val |-> <<>>, left |-> ws] ELSE LET m == Many(t, r.left) IN [m EXCEPT !.val = << r.val >> \o @]
RECURSIVE All(_, _)
All(types, ws) ==
  IF types = <<>> THEN [ok |-> ws = <<>>, val |-> <<>>]
  ELSE LET r == IF types[1] = "v" THEN Many("i", ws) ELSE Take(types[1], ws, 1) IN
       IF ~r.ok THEN [ok |-> FALSE, val |-> <<>>] ELSE LET m == All(Tail(types), r.left) IN [m EXCEPT !.val = << r.val >> \o @]
Reading(s, types) == IF s[1] # "s" THEN "refused" ELSE LET r == All(types, s[2]) IN IF ~r.ok THEN "refused" ELSE r.val
Kinds == << <<"i">>, <<"r">>, <<"b">>, <<"s">>, <<"v">>, <<"i", "s">>, <<"s", "i">>, <<"i", "i">>, <<"r", "b">>, <<"i", "r", "s">>, <<"i", "v">>, <<"v", "s">>, <<"i", "i", "i", "i">> >>
Is(s, types) == s[1] = "s" /\ All(types, s[2]).ok
\* rounding down; what is beyond the largest integer is refused
Floor(s) ==
  IF ~Is(s, <<"r">>) THEN "refused"
  ELSE LET p == RealParts(Join(s[2]))  d == NoZeros(p.d)  n == Len(d) + p.e
           ip == IF d = <<>> \/ n <= 0 THEN <<>> ELSE IF p.e >= 0 THEN (IF n > 11 THEN << "9", "9", "9", "9", "9", "9", "9", "9", "9", "9", "9" >> ELSE d \o [k \in 1..p.e |-> "0"]) ELSE SubSeq(d, 1, n)
           frac == IF p.e >= 0 THEN FALSE ELSE NoZeros(IF n <= 0 THEN d ELSE Drop(d, n)) # <<>>
       IN IF ~Fits(ip) \/ (frac /\ ip = MaxInt) THEN "refused"
          ELSE IF p.neg THEN -ToInt(ip) - (IF frac THEN 1 ELSE 0) ELSE ToInt(ip)

RObs(s) == << s[1] = "s", Is(s, <<"b">>), Is(s, <<"i">>) \/ Is(s, <<"r">>), Is(s, <<"i">>), Is(s, <<"r">>),
              IF s[1] # "s" THEN "" ELSE Cat(Join(s[2])), Floor(s), [k \in 1..Len(Kinds) |-> Reading(s, Kinds[k])] >>
Chars(n) == LET t == ToString(n) IN [k \in 1..Len(t) |-> SubSeq(t, k, k)]
\* a stored real is spelled with as many digits as it has, so that only its value is known
RStep(s, op) ==
  LET n == op[1]  t(x) == [st |-> x, res |-> "ok"] IN
  CASE n = "words" -> t(<< "s", op[2] >>)
    [] n = "int" -> t(<< "s", << Chars(op[2]) >> >>)
    [] n = "bool" -> t(<< "s", << << IF op[2] THEN "1" ELSE "0" >> >> >>)
    [] n = "pair" -> t(<< "s", << Chars(op[2]), op[3] >> >>)
    [] n \in {"null", "object", "array"} -> t(<< n, <<>> >>)
\* a real m * 10^e is stored and read back
RealStored(m, e) == Normal(m < 0, Chars(IF m < 0 THEN -m ELSE m), e)
RInv(s) ==
  LET o == RObs(s) IN
  /\ Is(s, <<"b">>) => Is(s, <<"i">>)
  /\ Is(s, <<"i">>) => Is(s, <<"r">>) /\ Floor(s) = Reading(s, <<"i">>)[1]
  /\ Is(s, <<"i">>) => Is(s, <<"v">>) /\ Reading(s, <<"v">>)[1] = Reading(s, <<"i">>)
RTrans(s, op, t) ==
  /\ op[1] = "int" => Reading(t, <<"i">>) = << op[2] >> /\ Floor(t) = op[2]
  /\ op[1] = "bool" => Reading(t, <<"b">>) = << op[2] >>
=============================================================================
