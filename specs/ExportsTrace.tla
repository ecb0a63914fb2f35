---------------------------- MODULE ExportsTrace ----------------------------
EXTENDS Replay, Exports
XCheck(x, e) ==
  LET r == XStep(x, e.op)  n == e.op[1]
      good == IF n \in {"vtk", "gid"} /\ r.res = "files" THEN (IF n = "vtk" THEN VtkOK(x.d, e.res) ELSE GidOK(x, e.res)) ELSE Same(e.res, r.res)
      what == IF n = "vtk" /\ r.res = "files" THEN ToString(<< VtkNames(x.d), VtkGroups(x.d), VtkSides(x.d) >>)
              ELSE IF n = "gid" /\ r.res = "files" THEN ToString(<< GidElems(x), GidSides(x) >>) ELSE r.res
  IN [ok |-> good /\ Same(e.obs, ObsD(r.st.d)), st |-> r.st, exp |-> [res |-> IF good THEN "as is" ELSE what, obs |-> ObsD(r.st.d)]]
=============================================================================
