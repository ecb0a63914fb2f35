------------------------------- MODULE Replay -------------------------------
(* Trace validation: each line of the ndjson file is one call of the real   *)
(* implementation with its arguments, its result and the state it exposed.  *)
(* Check(rst, e) decides whether the specification allows it from state rst   *)
(* and yields the specification's next state.  A refused event is printed   *)
(* (MISMATCH line expected) and validation goes on from the specification   *)
(* state, so that later cases are still judged.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS S0, Check(_, _)
VARIABLES rl, rst
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == rl = 1 /\ rst = S0
Next == /\ rl <= Len(Trace)
        /\ rl' = rl + 1
        /\ LET e == Trace[rl] IN
           IF e.op[1] = "case" THEN rst' = S0
           ELSE LET r == Check(rst, e) IN
                /\ rst' = r.st
                /\ IF r.ok THEN TRUE
                   ELSE PrintT("MISMATCH " \o ToString(rl) \o " " \o ToJson(r.exp))
Spec == Init /\ [][Next]_<<rl, rst>>
\* one state per consumed line plus the initial state
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
\* comparison that is total over JSON values of different types
Same(a, b) == ToJson(a) = ToJson(b)
=============================================================================
