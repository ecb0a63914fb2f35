------------------------------- MODULE Helps --------------------------------
(* Usage line and help text of a parser (src/core/argument/Formatter.cpp):   *)
(* every argument of every group, in order, with its form, its placeholder   *)
(* and its help, and texts filled to the width of the console.               *)
(* A group: << up, name, description, exclusive, required >>, the first one  *)
(* is the parser.  An argument: << group, kind, name, short, long, required, *)
(* help, placeholder words, default words, choices >>.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
HInit == "n"
Width == 80
Char(t, i) == SubSeq(t, i, i)
Idx(t) == [i \in 1..Len(t) |-> i]
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Cap(c) == LET m == { i \in 1..26 : Char(Lower, i) = c } IN IF m = {} THEN c ELSE Char(Upper, CHOOSE i \in m : TRUE)
Caps(t) == FoldLeft(LAMBDA a, i : a \o Cap(Char(t, i)), "", Idx(t))
Blanks(n) == FoldLeft(LAMBDA a, i : a \o " ", "", [i \in 1..n |-> i])
Joined(q, sep) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, w : a \o sep \o w, q[1], Tail(q))
Words(t) == LET r == FoldLeft(LAMBDA acc, i : LET c == Char(t, i) IN
                        IF c = " " THEN (IF acc.w = "" THEN acc ELSE [ws |-> Append(acc.ws, acc.w), w |-> ""]) ELSE [acc EXCEPT !.w = @ \o c],
                      [ws |-> <<>>, w |-> ""], Idx(t)) IN IF r.w = "" THEN r.ws ELSE Append(r.ws, r.w)
\* every mark in a text replaced
RECURSIVE Put(_, _, _)
Put(t, mark, by) == LET n == Len(mark)  m == { i \in 1..(Len(t) - n + 1) : SubSeq(t, i, i + n - 1) = mark } IN
  IF m = {} THEN t ELSE LET i == CHOOSE x \in m : \A y \in m : x <= y IN SubSeq(t, 1, i - 1) \o by \o Put(SubSeq(t, i + n, Len(t)), mark, by)
\* lines of a text that begins after what is already on the line; the next ones begin after so many blanks
Fill(first, min, text) ==
  LET r == FoldLeft(LAMBDA acc, w :
             IF acc.none THEN [acc EXCEPT !.line = @ \o w, !.none = FALSE]
             ELSE IF Len(acc.line) + 1 + Len(w) > Width THEN [acc EXCEPT !.ls = Append(@, acc.line), !.line = Blanks(min) \o w]
             ELSE [acc EXCEPT !.line = @ \o " " \o w],
             [ls |-> <<>>, line |-> first, none |-> TRUE], Words(text))
  IN Append(r.ls, r.line)
\* arguments
Meta(a) == IF a[8] = <<>> THEN Caps(a[3]) ELSE Joined(a[8], " ")
Again(t, x) == t \o " [" \o x \o " ...]"
Form(a) == IF a[4] # "" THEN "-" \o a[4] ELSE "--" \o a[5]
Shown(a) == CASE a[2] = "pos" -> Meta(a) [] a[2] = "mpos" -> Again(Meta(a), Meta(a)) [] a[2] = "switch" -> Form(a) [] a[2] = "mswitch" -> Again(Form(a), Form(a))
              [] a[2] = "opt" -> Form(a) \o " " \o Meta(a) [] a[2] = "mopt" -> Again(Form(a) \o " " \o Meta(a), Meta(a))
IsPos(a) == a[2] \in {"pos", "mpos"}
Own(as, g, pos) == SelectSeq(as, LAMBDA a : a[1] = g /\ IsPos(a) = pos)
Kids(gs, g) == SelectSeq([k \in 1..Len(gs) |-> k], LAMBDA k : gs[k][1] = g)
MapS(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
UseOf(gs, as) ==
  LET Use[g \in 1..Len(gs)] ==
        LET me == gs[g][4]
            parts == MapS(Shown, Own(as, g, TRUE)) \o MapS(LAMBDA a : IF a[6] \/ me THEN Shown(a) ELSE "[" \o Shown(a) \o "]", Own(as, g, FALSE))
                     \o SelectSeq(MapS(LAMBDA k : Use[k], Kids(gs, g)), LAMBDA t : t # "")
            t == Joined(parts, IF me THEN " | " ELSE " ")
        IN IF ~me THEN t ELSE IF gs[g][5] THEN "(" \o t \o ")" ELSE "[" \o t \o "]"
  IN Use[1]
Prog(t, prog) == Put(t, "${PROG}", prog)
Usage(prog, usage, gs, as) == IF usage # "" THEN Fill("", 0, Prog(usage, prog)) ELSE Fill("", Len("usage:  ") + Len(prog), "usage: " \o prog \o " " \o UseOf(gs, as))
\* an argument and its help
Column == Width \div 8
Helped(a, prog) == Put(Put(Prog(a[7], prog), "${DEFAULT}", Joined(a[9], " ")), "${CHOICES}", Joined(MapS(LAMBDA c : Joined(c, " "), a[10]), ", "))
ArgLines(a, tab, prog) == LET t == Blanks(tab) \o Shown(a) IN
  IF a[7] = "" THEN << t >> ELSE IF Len(t) >= Column THEN << t >> \o Fill(Blanks(Column), Column, Helped(a, prog)) ELSE Fill(t \o Blanks(Column - Len(t)), Column, Helped(a, prog))
Lines(as, tab, prog) == FlattenSeq(MapS(LAMBDA a : ArgLines(a, tab, prog), as))
Deep(gs, g) == LET RECURSIVE d(_) d(k) == IF gs[k][1] = 0 THEN 0 ELSE 1 + d(gs[k][1]) IN d(g)
GroupLines(gs, as, prog) ==
  LET Of[g \in 1..Len(gs)] ==
        LET p == Own(as, g, TRUE)  o == Own(as, g, FALSE)  k == Kids(gs, g)  root == g = 1  me == gs[g][4]  d == Deep(gs, g)
            tab == IF root \/ (me /\ d = 1) THEN 1 ELSE IF me THEN 4 ELSE 2
            head == IF me THEN << (IF d = 1 THEN "" ELSE "  ") \o "mutually exclusive group:" >>
                    ELSE IF root THEN <<>> ELSE Fill("", 0, gs[g][2]) \o (IF gs[g][3] = "" THEN <<>> ELSE Fill("  ", 2, gs[g][3]) \o <<"">>)
        IN head \o (IF root /\ p # <<>> THEN << "positional arguments:" >> ELSE <<>>) \o Lines(p, tab, prog)
           \o (IF root /\ p # <<>> /\ (o # <<>> \/ k # <<>>) THEN <<"">> ELSE <<>>)
           \o (IF root /\ o # <<>> THEN << "optional arguments:" >> ELSE <<>>) \o Lines(o, tab, prog)
           \o (IF root /\ o # <<>> /\ k # <<>> THEN <<"">> ELSE <<>>) \o FlattenSeq(MapS(LAMBDA x : Of[x], k))
  IN Of[1]
Help(prog, usage, desc, epilog, gs, as) ==
  Usage(prog, usage, gs, as) \o <<"">> \o (IF desc = "" THEN <<>> ELSE Fill("", 0, Prog(desc, prog)) \o <<"">>) \o GroupLines(gs, as, prog)
  \o (IF epilog = "" THEN <<>> ELSE <<"">> \o Fill("", 0, Prog(epilog, prog)))
HRes(op) == CASE op[1] = "usage" -> Usage(op[2], op[3], op[6], op[7]) [] op[1] = "help" -> Help(op[2], op[3], op[4], op[5], op[6], op[7])
HStep(s, op) == [st |-> s, res |-> HRes(op)]
HInv(s) == TRUE
\* no line is wider than the console unless one word is; nothing said is lost; every argument is in the usage and, once, in the help
AllWords(ls) == FlattenSeq(MapS(Words, ls))
HTrans(s, op, t) ==
  LET ls == HRes(op)  ws == AllWords(ls)  u == AllWords(Usage(op[2], "", op[6], op[7])) IN
  /\ \A i \in DOMAIN ls : Len(ls[i]) <= Width \/ Len(Words(ls[i])) = 1 \/ \E a \in ToSet(op[7]) : Len(Words(ls[i])) <= Len(Words(Shown(a)))
  /\ op[1] = "usage" /\ op[3] = "" => ws = Words("usage: " \o op[2] \o " " \o UseOf(op[6], op[7]))
  /\ op[1] = "help" /\ op[3] = "" => IsPrefix(u, ws)
  /\ op[1] = "help" => \A a \in ToSet(op[7]) : \E i \in DOMAIN ls : IsPrefix(Words(Shown(a)), Words(ls[i]))
=============================================================================
