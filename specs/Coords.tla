------------------------------- MODULE Coords -------------------------------
(* A collection of coordinates as a registry by position.  Positions are    *)
(* integers in quarters of the length unit.  Kind "R" is unstructured; "I"  *)
(* structured (relative and conformal coordinates are structured ones).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

KInit == [n |-> 0, cs |-> <<>>, uni |-> <<>>]
Q(p) == <<4 * p[1], 4 * p[2], 4 * p[3]>>
AtPos(st, k, p) == { i \in 1..Len(st.cs) : st.cs[i].k = k /\ st.cs[i].p = p }
IdsOf(cs) == [i \in 1..Len(cs) |-> cs[i].id]
KLegal(ids) == /\ \A i \in 1..Len(ids) : ids[i] # 0
               /\ \A i, j \in 1..Len(ids) : i # j => ids[i] # ids[j]
MaxOf(cs) == LET s == {0} \cup { cs[i].id : i \in 1..Len(cs) } IN CHOOSE m \in s : \A x \in s : x <= m
Item(c) == <<c.s, c.id, c.k, c.p>>
\* kinds of the description of a new coordinate
Kd(k) == IF k = "R" THEN "R" ELSE "I"
RECURSIVE KKeep(_, _, _)
KKeep(cs, P, i) == IF i > Len(cs) THEN <<>>
                   ELSE (IF i \in P THEN <<cs[i]>> ELSE <<>>) \o KKeep(cs, P, i + 1)
\* append new coordinates at positions ps, numbered after the largest identifier
Grow(st, k, ps) ==
  [st EXCEPT !.n = @ + Len(ps),
             !.cs = @ \o [i \in 1..Len(ps) |-> [s |-> st.n + i, id |-> MaxOf(st.cs) + i, k |-> k, p |-> Q(ps[i])]]]
KNew(st, l) == [i \in 1..Len(l) |-> [s |-> st.n + i, id |-> l[i][2], k |-> Kd(l[i][1]), p |-> Q(l[i][3])]]
KIds(l) == [i \in 1..Len(l) |-> l[i][2]]
Free(st, k, ps) == SelectSeq(ps, LAMBDA p : AtPos(st, k, Q(p)) = {})

KStep(st, op) ==
  LET n == op[1] IN
  CASE n = "universe" -> [st |-> [st EXCEPT !.uni = op[2]], res |-> "ok"]
    [] n \in {"addPos", "addPosDef"} ->
         LET overlap == n = "addPos" /\ op[4] = 1 IN
         IF overlap \/ AtPos(st, op[2], Q(op[3])) = {}
         THEN LET t == Grow(st, op[2], <<op[3]>>) IN [st |-> t, res |-> Item(t.cs[Len(t.cs)])]
         ELSE [st |-> st, res |-> "existing"]
    [] n = "addPosV" ->
         LET ps == IF op[4] = 1 THEN op[3] ELSE Free(st, op[2], op[3])
             t == Grow(st, op[2], ps)
         IN [st |-> t, res |-> [i \in 1..Len(ps) |-> st.n + i]]
    [] n = "construct" ->
         [st |-> Grow([st EXCEPT !.cs = <<>>], op[2], op[3]), res |-> "ok"]
    [] n = "add" ->
         IF KLegal(IdsOf(st.cs) \o KIds(op[2]))
         THEN [st |-> [st EXCEPT !.n = @ + Len(op[2]), !.cs = @ \o KNew(st, op[2])], res |-> "ok"]
         ELSE [st |-> st, res |-> "refused"]
    [] n = "assignRaw" ->
         IF KLegal(KIds(op[2]))
         THEN [st |-> [st EXCEPT !.n = @ + Len(op[2]), !.cs = KNew(st, op[2])], res |-> "ok"]
         ELSE [st |-> st, res |-> "refused"]
    [] n = "set" ->
         LET l == <<op[3]>> cs == [st.cs EXCEPT ![op[2]] = KNew(st, l)[1]] IN
         IF KLegal(IdsOf(cs)) THEN [st |-> [st EXCEPT !.n = @ + 1, !.cs = cs], res |-> "ok"]
         ELSE [st |-> st, res |-> "refused"]
    [] n = "clone" ->
         [st |-> [st EXCEPT !.n = @ + Len(st.cs), !.cs = [i \in 1..Len(st.cs) |-> [st.cs[i] EXCEPT !.s = st.n + i]]],
          res |-> "ok"]
    [] n \in {"copy", "moved"} -> [st |-> st, res |-> "ok"]
    [] n = "remove" ->
         [st |-> [st EXCEPT !.cs = KKeep(st.cs, (1..Len(st.cs)) \ ToSet(op[2]), 1)], res |-> "ok"]
    [] n = "removeId" ->
         [st |-> [st EXCEPT !.cs = SelectSeq(st.cs, LAMBDA c : c.id \notin ToSet(op[2]))], res |-> "ok"]
    [] n = "clear" -> [st |-> [st EXCEPT !.cs = <<>>], res |-> "ok"]
    [] n = "scale" ->
         [st |-> [st EXCEPT !.cs = [i \in 1..Len(st.cs) |->
                    IF st.cs[i].k = "R" THEN [st.cs[i] EXCEPT !.p = [j \in 1..3 |-> (@[j] * op[2]) \div op[3]]]
                    ELSE st.cs[i]]], res |-> "ok"]

\* what a lookup may answer: any member at the position (0: none)
LookOK(st, k, p, s) == LET P == AtPos(st, k, p) IN IF P = {} THEN s = 0 ELSE \E i \in P : st.cs[i].s = s
AllAt(st, p) == { st.cs[i].s : i \in AtPos(st, "I", p) }
ById(st, id) == LET P == { i \in 1..Len(st.cs) : st.cs[i].id = id } IN IF P = {} THEN 0 ELSE st.cs[CHOOSE i \in P : TRUE].s
Whole(p) == \A j \in 1..3 : p[j] % 4 = 0

KInv(st) == KLegal(IdsOf(st.cs))
(* A coordinate never moves except by scaling; an addition without overlap  *)
(* never creates two coordinates of a kind at a position occupied before.   *)
KTrans(s, op, t) ==
  /\ op[1] \notin {"scale", "clone"} =>
       \A i \in 1..Len(s.cs), j \in 1..Len(t.cs) : s.cs[i].s = t.cs[j].s => s.cs[i] = t.cs[j]
  /\ (op[1] \in {"addPosDef", "addPos", "addPosV"} /\ (op[1] = "addPosDef" \/ op[4] = 0)) =>
       \A j \in (Len(s.cs) + 1)..Len(t.cs) : AtPos(s, t.cs[j].k, t.cs[j].p) = {}
=============================================================================
