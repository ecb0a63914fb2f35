------------------------------ MODULE Machine ------------------------------
(* Generic exhaustive exploration of a deterministic API machine: a system  *)
(* state S0, the operations enabled in a state, and Step(mst, op) = the      *)
(* record [st |-> next state, res |-> observable result].  mhist is a        *)
(* history variable hidden by VIEW; every generated transition prints the   *)
(* operation sequence that exercises it (Emit), which the harness replays   *)
(* in the implementation: one conformance case per transition of the state  *)
(* graph.                                                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS S0, OpsOf(_), Step(_, _), Inv(_), TransInv(_, _, _), Depth, Emit
VARIABLES mst, mhist
vars == <<mst, mhist>>
Init == mst = S0 /\ mhist = <<>>
Next == \E op \in OpsOf(mst) :
           /\ Len(mhist) < Depth
           /\ mst' = Step(mst, op).st
           /\ mhist' = Append(mhist, op)
Spec == Init /\ [][Next]_vars
View == mst
StateOK == Inv(mst)
TransOK == [][TransInv(mst, mhist'[Len(mhist')], mst')]_vars
EmitCase == IF Emit THEN PrintT("CASE " \o ToJson(mhist')) ELSE TRUE
=============================================================================
