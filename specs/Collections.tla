---------------------------- MODULE Collections ----------------------------
(* Two collections A and B of shared, identified, polymorphic objects.      *)
(* objs[s] is the object with serial s: its identifier, its concrete type   *)
(* and a mutable mark; a collection is the sequence of the serials of its   *)
(* members.  An object may be a member of both (sharing); a clone is a new  *)
(* object.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CInit == [kind |-> "none", objs |-> <<>>, A |-> <<>>, B |-> <<>>]
Other(r) == IF r = "A" THEN "B" ELSE "A"
Ids(st, seq) == { st.objs[seq[i]].id : i \in 1..Len(seq) }
MaxId(st, seq) == LET s == Ids(st, seq) \cup {0} IN CHOOSE m \in s : \A x \in s : x <= m

\* A list of new objects given as <<type, id>> pairs; kind "layer" has one type
Ty(st, t) == IF st.kind = "layer" THEN 0 ELSE t
NewObjs(st, l) == [i \in 1..Len(l) |-> [id |-> l[i][2], ty |-> Ty(st, l[i][1]), mk |-> 0]]
Serials(st, n) == [i \in 1..n |-> Len(st.objs) + i]
Legal(ids) == /\ \A i \in 1..Len(ids) : ids[i] # 0
              /\ \A i, j \in 1..Len(ids) : i # j => ids[i] # ids[j]
IdSeq(st, seq) == [i \in 1..Len(seq) |-> st.objs[seq[i]].id]
PairIds(l) == [i \in 1..Len(l) |-> l[i][2]]
SetReg(st, r, seq) == IF r = "A" THEN [st EXCEPT !.A = seq] ELSE [st EXCEPT !.B = seq]
Ok(st) == [st |-> st, res |-> "ok"]
Refused(st) == [st |-> st, res |-> "refused"]
Members(st, r) == IF r = "A" THEN st.A ELSE st.B
Fresh(st, l) == [st EXCEPT !.objs = st.objs \o l]

RECURSIVE KeepPos(_, _, _)
KeepPos(seq, P, i) ==   \* members at the positions in P, in order
  IF i > Len(seq) THEN <<>>
  ELSE (IF i \in P THEN <<seq[i]>> ELSE <<>>) \o KeepPos(seq, P, i + 1)
PosOfIds(st, seq, ids) == { i \in 1..Len(seq) : \E j \in 1..Len(ids) : st.objs[seq[i]].id = ids[j] }

CStep(st, op) ==
  LET n == op[1] IN
  IF n = "kind" THEN Ok([CInit EXCEPT !.kind = op[2]]) ELSE
  LET r == op[2]  me == Members(st, r)  ot == Members(st, Other(r)) IN
  CASE n = "add" ->
         LET l == op[3] IN
         IF Legal(IdSeq(st, me) \o PairIds(l))
         THEN Ok(SetReg(Fresh(st, NewObjs(st, l)), r, me \o Serials(st, Len(l))))
         ELSE Refused(st)
    [] n = "addId" ->
         LET l == op[3]  base == MaxId(st, me)
             new == [i \in 1..Len(l) |-> [id |-> base + i, ty |-> Ty(st, l[i]), mk |-> 0]]
         IN [st |-> SetReg(Fresh(st, new), r, me \o Serials(st, Len(l))), res |-> Serials(st, Len(l))]
    [] n = "share" ->
         LET l == KeepPos(ot, ToSet(op[3]), 1) IN
         IF Legal(IdSeq(st, me) \o IdSeq(st, l)) THEN Ok(SetReg(st, r, me \o l)) ELSE Refused(st)
    [] n \in {"assign", "copy"} -> Ok(SetReg(st, r, ot))
    [] n = "move" -> Ok(SetReg(SetReg(st, r, ot), Other(r), <<>>))
    [] n \in {"assignRaw", "construct"} ->
         LET l == op[3] IN
         IF Legal(PairIds(l)) THEN Ok(SetReg(Fresh(st, NewObjs(st, l)), r, Serials(st, Len(l)))) ELSE Refused(st)
    [] n = "clone" ->
         LET new == [i \in 1..Len(ot) |-> st.objs[ot[i]]]
         IN Ok(SetReg(Fresh(st, new), r, Serials(st, Len(ot))))
    [] n = "remove" -> Ok(SetReg(st, r, KeepPos(me, (1..Len(me)) \ ToSet(op[3]), 1)))
    [] n = "removeId" -> Ok(SetReg(st, r, KeepPos(me, (1..Len(me)) \ PosOfIds(st, me, op[3]), 1)))
    [] n = "clear" -> Ok(SetReg(st, r, <<>>))
    [] n = "set" ->
         LET p == op[3] ids == [IdSeq(st, me) EXCEPT ![p] = op[5]] IN
         IF Legal(ids)
         THEN Ok(SetReg(Fresh(st, <<[id |-> op[5], ty |-> Ty(st, op[4]), mk |-> 0]>>), r,
                        [me EXCEPT ![p] = Len(st.objs) + 1]))
         ELSE Refused(st)
    [] n = "mark" ->
         IF st.kind \in {"layer", "coord"} THEN Ok(st)
         ELSE Ok([st EXCEPT !.objs = [@ EXCEPT ![me[op[3]]] = [@ EXCEPT !.mk = op[4]]]])
    [] n = "get" -> [st |-> st, res |-> KeepPos(me, ToSet(op[3]), 1)]
    [] n = "getId" -> [st |-> st, res |-> KeepPos(me, PosOfIds(st, me, op[3]), 1)]
    [] n = "getIds" -> [st |-> st, res |-> IdSeq(st, me)]

(* ---------------------------- projection ------------------------------- *)
List(st, seq) == [i \in 1..Len(seq) |->
                    <<seq[i], st.objs[seq[i]].id, st.objs[seq[i]].ty, st.objs[seq[i]].mk>>]
Look(st, seq) == [k \in 1..13 |->
                    LET P == { i \in 1..Len(seq) : st.objs[seq[i]].id = k - 1 } IN
                    IF P = {} THEN 0 ELSE seq[CHOOSE i \in P : TRUE]]
(* The query types: A and B are base classes, 0..3 concrete ones. *)
QuerySets(kind) ==
  CASE kind = "layer" -> [q \in 1..12 |-> {0}]
    [] kind = "coord" -> <<{0}, {1, 2, 3}, {0}, {1, 2, 3}, {2}, {3}, {0}, {1}, {0}, {1}, {2}, {3}>>
    [] OTHER -> <<{0, 1}, {2, 3}, {0}, {1}, {2}, {3}, {}, {}, {0}, {1}, {2}, {3}>>
Sel(st, seq) == [q \in 1..12 |-> KeepPos(seq, { i \in 1..Len(seq) : st.objs[seq[i]].ty \in QuerySets(st.kind)[q] }, 1)]
CObs(st) == [A |-> List(st, st.A), B |-> List(st, st.B),
             lookA |-> Look(st, st.A), lookB |-> Look(st, st.B),
             selA |-> Sel(st, st.A), selB |-> Sel(st, st.B)]

(* ---------------------------- properties ------------------------------- *)
UniqueIds(st, seq) == Legal(IdSeq(st, seq))
CInv(st) == /\ UniqueIds(st, st.A) /\ UniqueIds(st, st.B)
            /\ \A k \in 1..13 : LET a == Look(st, st.A)[k] IN a # 0 => st.objs[a].id = k - 1
ReadOnly == {"get", "getId", "getIds"}
CanRefuse == {"add", "share", "assignRaw", "construct", "set"}
CTrans(s, op, t) ==
  LET r == op[2] n == op[1] res == CStep(s, op).res IN
  n = "kind" \/
  /\ (n \in ReadOnly \/ (n \in CanRefuse /\ res = "refused")) => s = t
  /\ n # "move" => Members(t, Other(r)) = Members(s, Other(r))
  /\ n = "addId" => \A i \in 1..Len(op[3]) :
        t.objs[Members(t, r)[Len(Members(s, r)) + i]].id = MaxId(s, Members(s, r)) + i
  /\ n # "mark" => \A i \in 1..Len(s.objs) : t.objs[i] = s.objs[i]
=============================================================================
