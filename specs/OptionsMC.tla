----------------------------- MODULE OptionsMC -----------------------------
EXTENDS Machine, Options
CONSTANTS Level
SolverVals == { << "runSimulation", "b", FALSE >>, << "finalTime", "t", 32 >>, << "finalTime", "t", 35 >>, << "numberOfTimeSteps", "i", 7 >>, << "timeStep", "t", 4 >>, << "timeStep", "t", 3 >>, << "cfl", "x", "0.5" >>,
                << "defaultSamplingPeriod", "x", "2.5" >>, << "forceRestarting", "b", TRUE >>, << "resumeSimulation", "b", TRUE >>, << "flush", "x", "100" >>, << "additionalArguments", "s", "-a b" >> }
MesherVals == { << Flags[k], "b", b >> : k \in 1..8, b \in BOOLEAN } \cup { << Reals[k], "x", "0.25" >> : k \in 1..3 } \cup { << "mesher", "s", x >> : x \in Meshers \cup {"Mesher"} } \cup { << "mode", "s", x >> : x \in Modes \cup {"structured"} }
              \cup { << Bounds[k], "s", x >> : k \in 1..6, x \in {"PEC", "MUR2", "Periodic", "pec"} } \cup { << "subgridPoints", "i", 3 >> }
More(ps) == { << >> } \cup { << p >> : p \in ps } \cup { << p, q >> : p, q \in ps }
Distinct(l) == \A i, j \in 1..Len(l) : l[i][1] = l[j][1] => i = j
HOps(s) == IF Level = 1 /\ s.m # Mesher0 THEN {} ELSE
           { << "solver", l >> : l \in { x \in More(SolverVals) : Distinct(x) } } \cup { << "putSolver", p >> : p \in SolverVals }
           \cup { << "mesher", l >> : l \in { x \in More(MesherVals) : Distinct(x) /\ (Level = 2 \/ Len(x) < 2 \/ s.v = Solver0) } } \cup { << "putMesher", p >> : p \in { x \in MesherVals : ~BadMesher(x) } }
=============================================================================
