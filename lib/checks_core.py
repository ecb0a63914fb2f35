from registry import check, mc_cfg, trace_cfg, numbered
import gens
import vlib


def coll_model(run, tag, kinds, maxobjs, maxlen, ids, depth, keep=None):
    r = run.model("CollectionsMC", mc_cfg("C", " Kinds = {%s}\n MaxObjs = %d\n MaxLen = %d\n Ids_ = {%s}\n Level = 1" % (
        ",".join('"%s"' % k for k in kinds), maxobjs, maxlen, ",".join(map(str, ids))), depth=depth), tag)
    return [c for c in r["cases"] if keep is None or c[-1][0] in keep]


P01_OPS = {"add", "addId", "share", "assign", "assignRaw", "construct", "remove", "removeId", "clear", "set", "getIds", "getId", "move"}


@check("P01")
def p01(run):
    exe = vlib.build(run.scratch, "group.cpp")
    cases = coll_model(run, "x", ["mat"] if not run.deep else ["mat", "coord"], 4, 3, [0, 1, 2] , 4 if not run.deep else 5)
    cases = numbered(cases, "x") + numbered([gens.collections(run.rng) for _ in range(600 if not run.deep else 8000)], "r")
    run.conform(exe, "CollectionsTrace", trace_cfg("C"), cases)


P02_OPS = {"share", "assign", "copy", "clone", "mark", "get", "getId", "getIds", "add", "addId"}


@check("P02")
def p02(run):
    exe = vlib.build(run.scratch, "group.cpp")
    cases = coll_model(run, "x", ["coord", "elem"], 4, 3, [1, 2], 4, P02_OPS)
    if run.deep:
        cases += coll_model(run, "y", ["layer", "elem"], 5, 4, [1, 2], 5, P02_OPS)
    run.rng.shuffle(cases)
    cases = numbered(cases[:40000 if not run.deep else 400000], "x")
    cases += numbered([gens.collections(run.rng) for _ in range(600 if not run.deep else 8000)], "r")
    run.conform(exe, "CollectionsTrace", trace_cfg("C"), cases)


@check("P03")
def p03(run):
    exe = vlib.build(run.scratch, "coords.cpp")
    r = run.model("CoordsMC", mc_cfg("K", " MaxC = 3\n XS = {%s}" % ("0, 1" if not run.deep else "-1, 0, 1"),
                                     depth=5 if not run.deep else 5), "x")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:30000 if not run.deep else 300000], "x")
    cases += numbered([gens.coords(run.rng) for _ in range(800 if not run.deep else 10000)], "r")
    run.conform(exe, "CoordsTrace", trace_cfg("K"), cases)


@check("P04")
def p04(run):
    exe = vlib.build(run.scratch, "elements.cpp")
    r = run.model("ElementsMC", mc_cfg("E", " Kinds = {\"R\", \"I\", \"M\"}\n MaxE = %d" % (2 if not run.deep else 3), depth=4), "x")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:9000 if not run.deep else 200000], "x")
    cases += numbered([gens.elements(run.rng) for _ in range(600 if not run.deep else 8000)], "r")
    run.conform(exe, "ElementsTrace", trace_cfg("E"), cases)
