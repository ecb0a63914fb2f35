------------------------------- MODULE Enlarge -------------------------------
(* Padding of a grid.  Lines are fixed point numbers (U per unit).  What is  *)
(* added at a side of an axis is determined up to the sizes of intermediate  *)
(* cells: Pads is the relation every implementation has to satisfy, Canon    *)
(* one way of satisfying it.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
U == 10000
E == 4                               \* rounding of one fixed point number, doubled
LInit == [set |-> FALSE, pos |-> << <<0, U>>, <<0, U>>, <<0, U>> >>]
Abs(n) == IF n < 0 THEN -n ELSE n
Sum(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
Ignored(pad, siz) == pad = 0 \/ siz > pad
\* cells wide enough already: as many equal ones as needed (to 1% of one)
Equal(w, siz) == w >= siz
NEq(w, pad) == CHOOSE n \in 1..1000 : n * w >= pad - w \div 100 /\ (n - 1) * w < pad - w \div 100
\* the same for a number known to +-1
NOk(n, w, pad) == n * (w + 1) + 1 >= pad - w \div 100 /\ (n - 1) * (w - 1) - 1 < pad - w \div 100
(* new: the added cells, from the old border outwards; w: the border cell    *)
Pads(new, w, pad, siz) ==
  IF Ignored(pad, siz) THEN new = <<>>
  ELSE IF Equal(w, siz) THEN
     /\ \A i \in 1..Len(new) : Abs(new[i] - w) <= E
     /\ NOk(Len(new), w, pad)
  ELSE /\ Len(new) >= 1
       /\ \A i \in 1..Len(new) : new[i] >= w - E /\ 3 * new[i] <= 4 * siz + 3 * E
       /\ Abs(new[Len(new)] - siz) <= E
       /\ \A i \in 1..(Len(new) - 2) : new[i] <= new[i + 1] + E        \* growing
       /\ Len(new) >= 3 => 3 * (new[1] - w) >= new[2] - new[1] - 4 * E        \* from the first one on
       /\ Sum(new) >= pad - siz - E /\ 2 * Sum(new) <= 2 * pad + siz + E
Canon(w, pad, siz) ==
  IF Ignored(pad, siz) THEN <<>>
  ELSE IF Equal(w, siz) THEN [i \in 1..NEq(w, pad) |-> w]
  ELSE [i \in 1..(pad \div siz) |-> siz]
Steps(q) == [i \in 1..(Len(q) - 1) |-> q[i + 1] - q[i]]
W(q, b) == IF b = 0 THEN q[2] - q[1] ELSE q[Len(q)] - q[Len(q) - 1]
Below(q, new) == Reverse([i \in 1..Len(new) |-> q[1] - Sum(SubSeq(new, 1, i))])
Above(q, new) == [i \in 1..Len(new) |-> q[Len(q)] + Sum(SubSeq(new, 1, i))]
(* r is q padded at its lower side by (p0, s0) and at its upper by (p1, s1)  *)
Padded(q, r, p0, s0, p1, s1) ==
  \E k \in 0..(Len(r) - Len(q)) :
     /\ SubSeq(r, k + 1, k + Len(q)) = q                               \* every old line, none between
     /\ Pads(Reverse(Steps(SubSeq(r, 1, k + 1))), W(q, 0), p0, s0)
     /\ Pads(Steps(SubSeq(r, k + Len(q), Len(r))), W(q, 1), p1, s1)
Arg(op, d) == IF op[1] = "enlarge" THEN << op[2][d], op[3][d], op[4][d], op[5][d] >>   \* lower pad and size, upper pad and size
              ELSE IF op[2] + 1 # d THEN << 0, 0, 0, 0 >>
              ELSE IF op[3] = 0 THEN << op[4], op[5], 0, 0 >> ELSE << 0, 0, op[4], op[5] >>
LStep(s, op) ==
  IF op[1] = "setPos" THEN [st |-> [set |-> TRUE, pos |-> op[2]], res |-> "ok"]
  ELSE [st |-> [set |-> TRUE, pos |-> [d \in 1..3 |-> LET q == s.pos[d]  a == Arg(op, d)
                IN Below(q, Canon(W(q, 0), a[1], a[2])) \o q \o Above(q, Canon(W(q, 1), a[3], a[4]))]], res |-> "ok"]
LOK(s, op, pos) ==
  IF op[1] = "setPos" THEN pos = op[2]
  ELSE \A d \in 1..3 : LET a == Arg(op, d) IN Len(pos[d]) >= Len(s.pos[d]) /\ Padded(s.pos[d], pos[d], a[1], a[2], a[3], a[4])
LInv(s) == \A d \in 1..3 : Len(s.pos[d]) >= 2 /\ \A i \in 1..(Len(s.pos[d]) - 1) : s.pos[d][i] < s.pos[d][i + 1]
LTrans(s, op, t) ==
  /\ LOK(s, op, t.pos)
  /\ op[1] # "setPos" => \A d \in 1..3 : LET a == Arg(op, d)  q == s.pos[d]  r == t.pos[d] IN
        /\ ToSet(q) \subseteq ToSet(r)
        /\ \A x \in ToSet(r) \ ToSet(q) : (x < q[1] /\ a[1] > 0) \/ (x > q[Len(q)] /\ a[3] > 0)
        /\ a[1] > 0 /\ a[2] <= a[1] => q[1] - r[1] > a[1] - (IF W(q, 0) >= a[2] THEN W(q, 0) \div 100 + 1 ELSE a[2])
=============================================================================
