------------------------------ MODULE Options ------------------------------
(* Solver and mesher options (src/solver/Options, src/mesher/Options): they  *)
(* follow settings given as members of a settings tree, in any combination,  *)
(* or one by one.  Times are counted in sixteenths; other reals are texts.   *)
EXTENDS Args
Solver0 == [runSimulation |-> TRUE, byNumber |-> FALSE, ending |-> 0, timeStep |-> 0, cfl |-> "0.8", defaultSamplingPeriod |-> "0", forceRestarting |-> FALSE, resumeSimulation |-> FALSE, flush |-> "0", additionalArguments |-> ""]
Flags == << "contourRefinement", "snap", "unwantedConnectionsInfo", "structuredCellsInfo", "vtkExport", "postmshExport", "postsmbExport", "slantedWires" >>
Reals == << "forbiddenLength", "geometryScalingFactor", "slantedThreshold" >>
Bounds == << "lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound" >>
Member(q, x) == \E k \in 1..Len(q) : q[k] = x
Mesher0 == [flag |-> [f \in { Flags[k] : k \in 1..8 } |-> f = "postmshExport"], real |-> [f \in { Reals[k] : k \in 1..3 } |-> "1"], bound |-> [f \in { Bounds[k] : k \in 1..6 } |-> "Undefined"],
            mesher |-> "DMesher", mode |-> "Structured", subgridPoints |-> 0, gridStep |-> << 0, 0, 0 >>, outputName |-> ""]
HInit == [v |-> Solver0, m |-> Mesher0]
Meshers == {"AMesher", "DMesher", "HMesher"}
Modes == {"Structured", "Relaxed", "Slanted", "Conformal"}
Terminations == {"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"}
(* A setting is << name, kind, value >>: kind b (flag), t (time), i (integer),*)
(* x (real), s (text), w (anything else, spelled so that it is none of them). *)
SolverKinds == [runSimulation |-> "b", finalTime |-> "t", numberOfTimeSteps |-> "i", timeStep |-> "t", cfl |-> "x", defaultSamplingPeriod |-> "x", forceRestarting |-> "b", resumeSimulation |-> "b", flush |-> "x", additionalArguments |-> "s"]
KindOf(k) == IF Member(Flags, k) THEN "b" ELSE IF Member(Reals, k) THEN "x" ELSE IF k = "subgridPoints" THEN "i" ELSE IF Member(Bounds, k) \/ k \in {"mesher", "mode"} THEN "s" ELSE ""
BadSolver(p) == p[1] \in DOMAIN SolverKinds /\ p[2] = "w" /\ p[1] # "additionalArguments"
BadMesher(p) == \/ KindOf(p[1]) # "" /\ p[2] = "w"
                \/ p[1] = "mesher" /\ p[3] \notin Meshers
                \/ p[1] = "mode" /\ p[3] \notin Modes
                \/ Member(Bounds, p[1]) /\ p[3] \notin Terminations
SetSolver(v, p) ==
  CASE p[1] = "finalTime" -> [v EXCEPT !.byNumber = FALSE, !.ending = p[3]]
    [] p[1] = "numberOfTimeSteps" -> [v EXCEPT !.byNumber = TRUE, !.ending = p[3]]
    [] p[1] = "runSimulation" -> [v EXCEPT !.runSimulation = p[3]]
    [] p[1] = "timeStep" -> [v EXCEPT !.timeStep = p[3]]
    [] p[1] = "cfl" -> [v EXCEPT !.cfl = p[3]]
    [] p[1] = "defaultSamplingPeriod" -> [v EXCEPT !.defaultSamplingPeriod = p[3]]
    [] p[1] = "forceRestarting" -> [v EXCEPT !.forceRestarting = p[3]]
    [] p[1] = "resumeSimulation" -> [v EXCEPT !.resumeSimulation = p[3]]
    [] p[1] = "flush" -> [v EXCEPT !.flush = p[3]]
    [] p[1] = "additionalArguments" -> [v EXCEPT !.additionalArguments = p[3]]
    [] OTHER -> v
SetMesher(m, p) ==
  CASE Member(Flags, p[1]) -> [m EXCEPT !.flag[p[1]] = p[3]]
    [] Member(Reals, p[1]) -> [m EXCEPT !.real[p[1]] = p[3]]
    [] Member(Bounds, p[1]) -> [m EXCEPT !.bound[p[1]] = p[3]]
    [] p[1] = "mesher" -> [m EXCEPT !.mesher = p[3]]
    [] p[1] = "mode" -> [m EXCEPT !.mode = p[3]]
    [] p[1] = "subgridPoints" -> [m EXCEPT !.subgridPoints = p[3]]
    [] p[1] = "gridStep" -> [m EXCEPT !.gridStep = p[3]]
    [] p[1] = "outputName" -> [m EXCEPT !.outputName = p[3]]
    [] OTHER -> m
\* settings are a set: where both endings are given, the number of steps is taken
ByNumberLast(ps) == SelectSeq(ps, LAMBDA p : p[1] # "numberOfTimeSteps") \o SelectSeq(ps, LAMBDA p : p[1] = "numberOfTimeSteps")
Ceil(a, b) == (a + b - 1) \div b
Steps(v) == IF v.byNumber THEN v.ending ELSE IF v.timeStep # 0 THEN Ceil(v.ending, v.timeStep) ELSE 0
Final(v) == IF v.byNumber THEN v.ending * v.timeStep ELSE v.ending
Args0(v) ==
  (IF v.cfl # "0.8" THEN " -cfl " \o v.cfl ELSE "")
  \o (IF v.resumeSimulation THEN " -r " \o ToString(IF v.byNumber THEN v.ending ELSE IF v.timeStep # 0 THEN v.ending \div v.timeStep ELSE v.ending \div 16) ELSE "")
  \o (IF v.forceRestarting THEN " -s" ELSE "") \o (IF v.flush # "0" THEN " -flush " \o v.flush ELSE "")
SolverObs(v) == << v.runSimulation, Final(v), Steps(v), v.timeStep, v.cfl, v.defaultSamplingPeriod, v.forceRestarting, v.resumeSimulation, v.flush, v.additionalArguments, Args0(v) >>
MesherObs(m) == << m.mesher, m.mode, m.mode = "Structured", m.mode \in {"Relaxed", "Slanted"}, m.subgridPoints, m.gridStep, m.gridStep # << 0, 0, 0 >>, m.outputName,
                   [k \in 1..8 |-> m.flag[Flags[k]]], [k \in 1..3 |-> m.real[Reals[k]]], [k \in 1..6 |-> m.bound[Bounds[k]]] >>
HObs(s) == << SolverObs(s.v), MesherObs(s.m) >>
\* the options the mesher gives to a command line
L(t) == [k \in 1..Len(t) |-> SubSeq(t, k, k)]
Parser0 == FoldLeft(LAMBDA x, o : Define(x, o).st, UInit, <<
  << "arg", 1, "switch", "VTK Export", "", L("vtkexport"), <<>>, FALSE, <<>>, <<>> >>,
  << "arg", 1, "opt", "gridstep", "", L("gridstep"), << "r", "r", "r" >>, FALSE, <<>>, <<>> >>,
  << "arg", 1, "opt", "Mode", "", L("mode"), << "s" >>, FALSE, <<>>, << << "Structured" >>, << "Relaxed" >>, << "Slanted" >>, << "Conformal" >> >> >>,
  << "arg", 1, "opt", "Forbidden length", "", L("length"), << "r" >>, FALSE, <<>>, <<>> >> >>)
HStep(s, op) ==
  LET n == op[1]  t(x, r) == [st |-> x, res |-> r] IN
  CASE n = "solver" -> IF \E k \in 1..Len(op[2]) : BadSolver(op[2][k]) THEN t([s EXCEPT !.v = Solver0], "refused") ELSE t([s EXCEPT !.v = FoldLeft(SetSolver, @, ByNumberLast(op[2]))], "ok")
    [] n = "mesher" -> IF \E k \in 1..Len(op[2]) : BadMesher(op[2][k]) THEN t([s EXCEPT !.m = Mesher0], "refused") ELSE t([s EXCEPT !.m = FoldLeft(SetMesher, @, op[2])], "ok")
    [] n = "putSolver" -> t([s EXCEPT !.v = SetSolver(@, op[2])], "ok")
    [] n = "putMesher" -> t([s EXCEPT !.m = SetMesher(@, op[2])], "ok")
    [] n = "copy" -> t(s, "ok")
    [] n = "line" -> t(s, LET p == Parse(Parser0, op[2], FALSE) IN IF p.bad # {} THEN << "refused", p.bad >> ELSE p.res)
HInv(s) ==
  /\ Final(s.v) >= 0 /\ Steps(s.v) >= 0
  /\ s.v.byNumber => Steps(s.v) * s.v.timeStep = Final(s.v)
  /\ s.v.timeStep > 0 => (Steps(s.v) * s.v.timeStep >= Final(s.v) /\ (Steps(s.v) - 1) * s.v.timeStep < Final(s.v))
\* options not named keep their values; applying the same settings again changes nothing
HTrans(s, op, t) ==
  op[1] \in {"solver", "mesher"} /\ HStep(s, op).res = "ok" =>
    /\ ToJson(HStep(t, op).st) = ToJson(t)
    /\ op[1] = "solver" => t.m = s.m /\ \A f \in DOMAIN s.v \ ({"byNumber", "ending"} \cup { op[2][k][1] : k \in 1..Len(op[2]) }) : ToJson(t.v[f]) = ToJson(s.v[f])
    /\ op[1] = "mesher" => t.v = s.v
=============================================================================
