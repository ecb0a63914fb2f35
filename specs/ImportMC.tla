------------------------------ MODULE ImportMC ------------------------------
EXTENDS Machine, Import
CONSTANTS Level, Mode
Cube == << <<1, 0, 0, 0>>, <<2, 2, 0, 0>>, <<3, 2, 2, 0>>, <<4, 0, 2, 0>>, <<5, 0, 0, 2>>, <<6, 2, 0, 2>>, <<7, 2, 2, 2>>, <<8, 0, 2, 3>>, <<9, 5, -1, 4>> >>
G0 == << "cells", <<0, 0, 0, 4, 4, 4>>, <<2, 1, 4>>, <<>> >>
Cl == << "Classic", <<2, 2, 0, 0>> >>
D0 == [NoDoc EXCEPT !.grid = G0, !.coords = Cube, !.layers = << <<1, "one">>, <<7, "seven">> >>, !.solver = << "ugrfdtd", 2, <<>> >>,
        !.mats = << <<1, "air", "Classic", <<2, 2, 0, 0>> >>, <<4, "pec", "PEC", <<>> >> >>]
E0 == << << "Hex8", 10, 1, 1, <<1, 2, 3, 4, 5, 6, 7, 8>> >>, << "Qua4", 3, 0, 7, <<1, 2, 3, 4>> >>, << "Line", 2, 4, 0, <<1, 5>> >>, << "Line", 5, 0, 0, <<5, 9>> >>, << "Qua4", 6, 0, 0, <<1, 2, 6, 5>> >> >>
D1 == [D0 EXCEPT !.elems = E0]
D2 == [D1 EXCEPT !.conns = << <<1, "short", "MPre", <<1>> >> >>, !.srcs = << << "gen", <<"G", 3>>, <<2, 3>>, <<"voltage">> >>, << "pw", <<"F", "exc.txt">>, <<0, 0, 0, 2, 2, 2>>, <<"v", 0, 0, 1, 1, 0, 0>> >> >>,
        !.outs = << << "point", "p", "electricField", << TRUE, 0, 8, 2, FALSE, 0, 0, 0, FALSE, FALSE, "" >>, <<9>>, <<>> >> >>]
Put(f, x) == << "put", f, x >>
Set(f, x) == << "set", f, x >>
ElemPuts == { Put("elems", << e[1], i, m, l, e[2] >>) : e \in { << "Hex8", <<1, 2, 3, 4, 5, 6, 7, 8>> >>, << "Tet4", <<1, 2, 3, 5>> >>, << "Tet4", <<1, 2, 3, 4>> >>, << "Qua4", <<1, 2, 3, 4>> >>, << "Tri3", <<9, 2, 4>> >>, << "Line", <<1, 9>> >>, << "Line", <<1, 12>> >> },
                 i \in (IF Level = 1 THEN {10, 900} ELSE {1, 10, 900}), m \in {0, 4, 5}, l \in (IF Level = 1 THEN {7, 2} ELSE {0, 7, 2}) }
MatPuts(id) == { Put("mats", << id, "m", x[1], x[2] >>) : x \in
   { <<"PEC", <<>> >>, <<"PMC", <<>> >>, <<"SMA", <<>> >>, <<"PML", <<1, 0, 3, 4, 5, -6>> >>, <<"Classic", <<4, 3, 1, 0>> >>, <<"DispFile", <<"disp.txt">> >>, <<"DispFile", <<"none.txt">> >>, <<"WireFile", <<3, "w.txt">> >>,
     <<"WireRL", <<1, 2, 3>> >>, <<"WireRLC", <<1, 2, 3, 4, 5, 6, 7>> >>, <<"Crystal", <<0, 1, 0, 1, 2, 3, 4, 6, 8, 5>> >>, <<"Ferrite", <<1, 1, 0, 0, 0, 0, 3, 5, 7>> >>, <<"SIBCFile", <<"a.mibc", ".mibc">> >>, <<"SIBCFile", <<"a.txt", ".txt">> >>,
     <<"Multilayer", << << <<1, 2, 3, 4>>, <<5, 6, 7, 8>> >>, <<>> >> >>, <<"Multilayer", << << <<1, 2, 3, 4>> >>, << <<1, 9, 4>> >> >> >>, <<"Multilayer", << << <<1, 0, 3, 4>> >>, <<>> >> >>,
     <<"MPre", <<1>> >>, <<"MPre", <<2>> >>, <<"MPre", <<3>> >>, <<"MRLC", <<11, 1, 2, 3>> >>, <<"MRLC", <<18, 1, 2, 3>> >>, <<"MRLC", <<16, 1, 2, 3>> >>, <<"MDisp", <<"port.txt">> >>, <<"Gap", <<3>> >> } }
Dms == { << a, 1, 2, 3, b, 4, 5, 6, l, b, "tf.txt" >> : a \in {TRUE, FALSE}, b \in {TRUE, FALSE}, l \in {TRUE} }
Dm == << TRUE, 0, 8, 2, TRUE, 1, 9, 4, FALSE, FALSE, "" >>
Mags == { <<"G", 1>>, <<"G", 9>>, <<"B", 1, 3>>, <<"B", 3, 3>>, <<"B", 0, 3>>, <<"F", "exc.txt">>, <<"F", "nothing.txt">> }
SrcPuts == { Put("srcs", << "gen", m, t, p >>) : m \in Mags, t \in { <<1>>, <<2, 9>>, <<77>> }, p \in { <<"voltage">>, <<"current">> } }
   \cup { Put("srcs", << "line", <<"G", 2>>, t, <<a, b>> >>) : t \in { <<2>>, <<5, 2>>, <<77>> }, a \in {"electricField", "magneticField"}, b \in {"soft", "hard"} }
   \cup { Put("srcs", << "pw", <<"G", 2>>, b, p >>) : b \in { <<0, 0, 0, 2, 2, 2>>, <<-1, -1, -1, 3, 4, 5>>, <<0, 0, 0, 2, 2, 0>>, <<0, 0, 0, 0, 0, 0>> },
             p \in { <<"v", 0, 0, 1, 1, 0, 0>>, <<"v", 1, 1, 0, 1, -1, 5>>, <<"v", 1, 0, 0, 1, 0, 0>>, <<"v", 0, 0, 0, 1, 0, 0>>, <<"a", 1, 0, 0, 0>>, <<"a", 1, 3, 1, 0>>, <<"a", 1, 1, 1, 1>>, <<"r", 3, 2>> } }
   \cup { Put("srcs", << "wg", <<"B", 2, 4>>, t, <<e, m, n>> >>) : t \in { <<3>>, <<6>>, <<>>, <<77>> }, e \in {"TE", "TM"}, m \in 0..1, n \in 0..1 }
   \cup { Put("srcs", << "tem", <<"G", 2>>, <<3>>, << e, <<1, 1, 0>>, 1, 3 >> >>) : e \in {"Voltage", "Current"} }
OutPuts == { Put("outs", << g[1], "o", ty, Dm, t, <<>> >>) : ty \in {"electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "surfaceCurrentDensity", "current"},
               g \in { <<"point", <<>> >> }, t \in { <<1>>, <<9, 2>> } }
   \cup { Put("outs", << g[1], "o", "electricField", m, g[2], <<>> >>) : m \in Dms, g \in { <<"line", <<2>> >>, <<"line", <<5, 2>> >>, <<"surface", <<3, 6>> >>, <<"surface", <<77>> >>, <<"point", <<77>> >>, <<"layer", <<0, 0, 0, 1, 2, 3>> >>, <<"layer", <<0, 0, 0, 1, 2, 0>> >>, <<"layer", <<0, 2, 0, 1, 2, 0>> >>, <<"layer", <<2, 2, 2, 2, 2, 2>> >> } }
   \cup { Put("outs", << g[1], "bulk", b, Dm, g[2], <<a, k>> >>) : b \in Bulk, a \in {"x", "y", "z"}, k \in {1, 3}, g \in { <<"point", <<2>> >>, <<"surface", <<3>> >>, <<"line", <<2, 5>> >>, <<"layer", <<0, 0, 0, 1, 2, 0>> >> } }
   \cup { Put("outs", << "far", "f", "farField", Dm, <<-1, -1, -1, 3, 3, 3>>, <<0, 180, 30, 0, 360, 45>> >>) }
ConnPuts == { Put("conns", << c, "c", x[1], x[2] >>) : c \in {2, 9, 77}, x \in { <<"MPre", <<2>> >>, <<"MRLC", <<11, 1, 2, 3>> >>, <<"MDisp", <<"q">> >> } }
Pads == { <<>> } \cup { << <<a, a, a>>, <<b, b, 2>>, <<p, 0, p>>, <<q, q, q>>, n >> : a \in {1, 4}, b \in {2, 8}, p \in {4, 20}, q \in {0, 16}, n \in {0, 1} }
Grids == { << "cells", b, n, p >> : b \in { <<0, 0, 0, 4, 4, 4>>, <<-3, 1, 2, 5, 9, 14>> }, n \in { <<1, 2, 4>>, <<4, 4, 4>> }, p \in Pads }
   \cup { << "steps", b, w, f, p >> : b \in { <<0, 0, 0, 4, 4, 4>>, <<-3, 1, 2, 5, 8, 13>> }, w \in { <<1, 1, 1>>, <<2, 3, 5>>, <<4, 9, 20>> }, f \in 0..1, p \in { <<>>, << <<4, 4, 4>>, <<1, 1, 1>>, <<20, 0, 2>>, <<4, 4, 6>>, 0 >> } }
   \cup { << "native", <<-1, 0, 3>>, <<4, 6, 2>>, n >> : n \in { <<1, 1, 1>>, <<4, 3, 2>> } }
   \cup { << k, <<0, 1, 4>>, y, <<-2, 0>> >> : k \in {"lines", "file"}, y \in { <<0, 2>>, <<1, 2, 3, 9>> } } \cup { <<>>, << "nofile", "missing.json" >>, << "cells", <<0, 0, 0, 4, 4, 4>>, <<0, 0, 0>>, <<>> >> }
   \cup { << "file", x[1], x[2], x[3] >> : x \in { << <<>>, <<0, 2>>, <<0, 2>> >>, << <<0, 2>>, <<>>, <<1, 3>> >>, << <<0, 1>>, <<0, 2>>, <<>> >> } } \cup { << "part", w >> : w \in {"", "\"xs\": [0, 1], \"ys\": [0, 1]", "\"xs\": [0, 1], \"ys\": [0, 1], \"zs\": [0, 1", "\"xs\": [0, 1], \"ys\": [0, 1], \"zs\": 3"} }
Solvers == { <<>>, << "cudg3d", 0, <<>> >>, << "ugrfdtd", 1, << <<"a", "b", "1">>, <<"b", "b", "0">>, <<"c", "s", "some text">>, <<"d", "n", "25">>, <<"e", "o", << <<"f", "s", "">>, <<"g", "n", "-3">> >> >> >> >>, << "ugrfdtd", 3, << <<"deep", "o", << <<"in", "o", << <<"x", "b", "1">> >> >> >> >> >> >> }
Sections == MeshSections \cup {"materials", "solverOptions", "connectorOnPoint", "sources", "outputRequests", "_version"}
\* the keys each item needs, and those that hold labels
MatKeys(k) == {"materialType"} \cup
  CASE k = "Classic" -> {"permittivity", "permeability", "electricConductivity", "magneticConductivity"} [] k = "PML" -> {"localAxes"} [] k = "DispFile" -> {"filename"}
    [] k = "WireFile" -> {"wireType", "radius", "filename"} [] k = "WireRL" -> {"wireType", "radius", "resistance", "inductance"} [] k = "WireRLC" -> {"wireType", "radius", "resistance", "inductance", "capacitance", "parallelResistance", "parallelInductance", "parallelCapacitance"}
    [] k = "Crystal" -> {"anisotropicModel", "localAxes", "relativePermittiviy", "crystalRelativePermeability"} [] k = "Ferrite" -> {"anisotropicModel", "localAxes", "kappa", "ferriteRelativePermeability", "ferriteRelativePermittivity"}
    [] k = "SIBCFile" -> {"surfaceType", "filename"} [] k = "Multilayer" -> {"surfaceType", "materialId", "name", "layers", "useSembaVectorFitting"} [] k = "MPre" -> {"connectorType"} [] k = "MRLC" -> {"connectorType", "resistance", "inductance", "capacitance"}
    [] k = "MDisp" -> {"connectorType", "filename"} [] k = "Gap" -> {"width"} [] OTHER -> {}
LabelKeys == {"materialType", "wireType", "anisotropicModel", "surfaceType", "connectorType", "sourceType", "definitionMode", "type", "hardness", "shape", "excitationMode", "magnitude.type", "gidOutputType", "direction", "gridType"}
SrcKeys(x) == {"sourceType", "magnitude", "magnitude.type"} \cup (CASE x[2][1] = "F" -> {"magnitude.filename"} [] x[2][1] = "G" -> {"magnitude.frequencyMaximum"} [] OTHER -> {"magnitude.frequencyMinimum", "magnitude.frequencyMaximum"}) \cup
  (CASE x[1] = "pw" -> {"layerBox", "definitionMode"} \cup (CASE x[4][1] = "v" -> {"directionVector", "polarizationVector"} [] x[4][1] = "a" -> {"directionTheta", "directionPhi", "polarizationAlpha", "polarizationBeta"} [] OTHER -> {"numberOfRandomPlanewaves", "relativeVariationOfRandomDelay"})
    [] x[1] = "gen" -> {"type", "coordIds"} [] x[1] = "line" -> {"type", "hardness", "elemIds"} [] x[1] = "wg" -> {"shape", "excitationMode", "firstMode", "secondMode", "elemIds"} [] x[1] = "tem" -> {"excitationMode", "origin", "innerRadius", "outerRadius", "elemIds"})
OutKeys(x) == {"name", "type", "gidOutputType", "domain"} \cup (IF x[1] \in {"layer", "far"} THEN {"box"} ELSE {"elemIds"}) \cup (IF x[3] \in Bulk THEN {"direction", "skip"} ELSE {})
  \cup (IF x[1] = "far" THEN {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"} ELSE {}) \cup (IF x[4][1] THEN {"domain.finalTime", "domain.samplingPeriod"} ELSE {}) \cup (IF x[4][5] THEN {"domain.finalFrequency", "domain.frequencyStep", "domain.logFrequencySweep"} ELSE {})
GridKeys(g) == {"gridType"} \cup (CASE g[1] = "cells" -> {"layerBox", "numberOfCells", "type"} [] g[1] = "steps" -> {"layerBox", "stepSize", "fitSizeToBox", "type"} [] g[1] \in {"native", "lines"} -> {"corner", "boxSize", "nGridPoints", "xCoordinates", "yCoordinates", "zCoordinates"} [] OTHER -> {"filename"})
Keys(d, sec, k) == CASE sec = "mats" -> MatKeys(d.mats[k][3]) \cup {"materialId", "name"} [] sec = "conns" -> MatKeys(d.conns[k][3]) \cup {"coordIds"} [] sec = "srcs" -> SrcKeys(d.srcs[k]) [] sec = "outs" -> OutKeys(d.outs[k])
                     [] sec = "grid" -> GridKeys(d.grid) [] sec = "layers" -> {"id", "name"} [] sec = "solver" -> {"solver"}
Wrong == {"", "pec", "Unknown", "TE TM", "Classic2"}
Bads(d, sec, k) == { Set("bad", << << sec, k, key, "lose" >> >>) : key \in Keys(d, sec, k) }
   \cup { Set("bad", << << sec, k, key, w >> >>) : key \in { x \in Keys(d, sec, k) \cap LabelKeys : ~(sec = "grid" /\ x = "type") /\ ~(x = "gidOutputType" /\ sec = "outs" /\ d.outs[k][3] \in Bulk) }, w \in Wrong }
LastBad(d) == UNION { IF Len(d[sec]) = 0 THEN {} ELSE Bads(d, sec, Len(d[sec])) : sec \in {"mats", "conns", "srcs", "outs", "layers"} }
   \cup (IF d.grid = <<>> THEN {} ELSE Bads(d, "grid", 1)) \cup (IF d.solver = <<>> THEN {} ELSE Bads(d, "solver", 1))
\* one of each kind, for the parts the other modes explore in full
OneEach(S, Key(_)) == { CHOOSE p \in S : Key(p[3]) = k : k \in { Key(p[3]) : p \in S } }
Kind3(x) == x[3]
SrcKind(x) == << x[1], IF x[1] = "pw" THEN x[4][1] ELSE "", IF x[1] = "gen" THEN x[2][1] ELSE "" >>
OutKind(x) == << x[1], x[3] \in Bulk, x[4][5] >>
FewPuts == IF Level > 1 THEN MatPuts(2) \cup SrcPuts \cup OutPuts ELSE OneEach({ p \in MatPuts(2) : ~M!BadArgs(p[3][3], p[3][4]) }, Kind3) \cup OneEach({ p \in SrcPuts : ~SrcBad(D2, p[3]) }, SrcKind) \cup OneEach({ p \in OutPuts : ~OutBad(D2, p[3]) }, OutKind)
Size(d) == Len(d.mats) + Len(d.srcs) + Len(d.outs)
First == CASE Mode = "mesh" -> { << "doc", D1 >>, << "doc", D0 >> } [] Mode \in {"mats", "grid"} -> { << "doc", D0 >> } [] Mode = "devs" -> { << "doc", D1 >>, << "doc", [D1 EXCEPT !.solver[2] = 3] >> }
           [] OTHER -> { << "doc", D2 >>, << "doc", NoDoc >> }
JOps(d) ==
  IF d = NoDoc THEN First ELSE IF d.bad # <<>> THEN {} ELSE
  CASE Mode = "mesh" -> ElemPuts \cup { Put("coords", << i, -3, 0, 2 >>) : i \in {8, 20} } \cup { Put("layers", <<i, "l">>) : i \in {2, 7} } \cup { << "del", f, k >> : f \in { g \in {"coords", "layers", "elems", "mats"} : Len(d[g]) >= 2 }, k \in {1, 2} }
                        \cup { Set("solver", x) : x \in Solvers } \cup { Set("omit", <<o>>) : o \in Sections } \cup { << "style", k >> : k \in {1, 3} } \cup ConnPuts
    [] Mode = "mats" -> UNION { MatPuts(i) : i \in {2, 4, 12, 0} } \cup ConnPuts \cup (IF Len(d.mats) > 2 THEN LastBad(d) ELSE {})
    [] Mode = "devs" -> (IF Level > 1 \/ Len(d.srcs) + Len(d.outs) = 0 THEN SrcPuts \cup OutPuts ELSE {}) \cup (IF Len(d.srcs) + Len(d.outs) > 0 THEN LastBad(d) ELSE {})
    [] Mode = "grid" -> { Set("grid", g) : g \in Grids } \cup { Set("solver", x) : x \in Solvers } \cup (IF d.grid # G0 THEN LastBad(d) ELSE {})
    [] Mode = "reject" -> LET whole == d = D2 \/ Level > 1 IN LastBad(d) \cup (IF ~whole THEN {} ELSE
           { Set("ver", v) : v \in {"0.13", "", "0.14 ", "0.140", "0.14"} } \cup { Set("omit", <<o>>) : o \in Sections } \cup { Set("grid", g) : g \in { <<>>, << "nofile", "x" >>, << "file", <<0, 2>>, <<0, 2>>, <<0, 2>> >>, << "native", <<0, 0, 0>>, <<2, 2, 2>>, <<1, 1, 1>> >>, << "steps", <<0, 0, 0, 2, 2, 2>>, <<1, 1, 1>>, 0, <<>> >> } }
           \cup { << "raw", t >> : t \in {"", "{", "not json", "[]", "{}", "3", "{\"_version\":14}", "{\"_version\":\"0.14\"" } } \cup FewPuts)
=============================================================================
