"""Import of JSON projects (P13 to P17)."""
import vlib
from registry import check, mc_cfg, trace_cfg, numbered

T0, F0 = True, False
LABEL = {"mats": ("materialType", "wireType", "anisotropicModel", "surfaceType", "connectorType"),
         "srcs": ("sourceType", "definitionMode", "type", "hardness", "shape", "excitationMode", "magnitude.type"),
         "outs": ("type", "gidOutputType", "direction"), "grid": ("gridType",)}


def rnd_mat(rng, i, ports=False):
    h = lambda lo=0, hi=9: rng.randint(lo, hi)
    ax = lambda: [rng.randint(0, 3) for _ in range(3)] + [rng.randint(-4, 4) for _ in range(3)]
    k = rng.choice(["MPre", "MRLC", "MDisp"] if ports else ["PEC", "PMC", "SMA", "PML", "Classic", "Classic", "DispFile", "WireFile", "WireRL", "WireRLC", "Crystal", "Ferrite", "SIBCFile", "Multilayer", "Multilayer", "MPre", "MRLC", "MDisp", "Gap"])
    a = {"PEC": [], "PMC": [], "SMA": []}.get(k)
    if a is None:
        a = {"PML": lambda: ax(), "Classic": lambda: [h(1), h(1), h(), h()], "DispFile": lambda: [rng.choice(["disp.txt", "other.dat"])],
             "WireFile": lambda: [h(1), rng.choice(["w.txt", "dir/w x.dat"])], "WireRL": lambda: [h(1), h(), h()], "WireRLC": lambda: [h(1)] + [h() for _ in range(6)],
             "Crystal": lambda: ax() + [h(1), h(1), h(1), h(1)], "Ferrite": lambda: ax() + [h(-5), h(1), h(1)], "SIBCFile": lambda: ["f%d.mibc" % h(), ".mibc"],
             "Multilayer": lambda: [[[h(1), h(1), h(1), h()] for _ in range(rng.randint(1, 4))], rng.choice([[], [[h(1, 3), h(4, 9), h(1)]]])],
             "MPre": lambda: [rng.choice([1, 2, 3])], "MRLC": lambda: [rng.choice([11, 16, 18]), h(), h(), h()], "MDisp": lambda: ["port%d.txt" % h()], "Gap": lambda: [h(1)]}[k]()
    return [i, rng.choice(["", "m%d" % i, "a name", "PEC"]), k, a]


def mat_keys(m):
    k = m[2]
    return {"Classic": ["permittivity", "permeability", "electricConductivity", "magneticConductivity"], "PML": ["localAxes"], "DispFile": ["filename"],
            "WireFile": ["wireType", "radius", "filename"], "WireRL": ["wireType", "radius", "resistance", "inductance"], "WireRLC": ["wireType", "capacitance", "parallelResistance", "parallelInductance", "parallelCapacitance"],
            "Crystal": ["anisotropicModel", "localAxes", "relativePermittiviy", "crystalRelativePermeability"], "Ferrite": ["anisotropicModel", "localAxes", "kappa", "ferriteRelativePermeability", "ferriteRelativePermittivity"],
            "SIBCFile": ["surfaceType", "filename"], "Multilayer": ["surfaceType", "name", "layers", "useSembaVectorFitting"], "MPre": ["connectorType"],
            "MRLC": ["connectorType", "resistance", "inductance", "capacitance"], "MDisp": ["connectorType", "filename"], "Gap": ["width"]}.get(k, []) + ["materialType", "materialId"]


def src_keys(x):
    r = {"gen": ["type", "coordIds"], "line": ["type", "hardness", "elemIds"], "wg": ["shape", "excitationMode", "firstMode", "secondMode", "elemIds"],
         "tem": ["excitationMode", "origin", "innerRadius", "outerRadius", "elemIds"]}.get(x[0])
    if x[0] == "pw":
        r = ["layerBox", "definitionMode"] + {"v": ["directionVector", "polarizationVector"], "a": ["directionTheta", "polarizationBeta"], "r": ["numberOfRandomPlanewaves"]}[x[3][0]]
    return r + ["sourceType", "magnitude", "magnitude.type"]


def out_keys(x):
    return ["name", "type", "gidOutputType", "domain", "box" if x[0] in ("layer", "far") else "elemIds"] + (["direction", "skip"] if x[2].startswith("bulk") else []) + \
        (["finalTheta", "stepPhi"] if x[0] == "far" else []) + (["domain.finalTime", "domain.samplingPeriod"] if x[3][0] else [])


def rnd_box(rng, dims=None):
    lo = [rng.randint(-4, 4) for _ in range(3)]
    return lo + [x + (rng.randint(1, 6) if (dims is None or d < dims) else 0) for d, x in enumerate(lo)]


def shuffle_dims(rng, b):
    p = [0, 1, 2]
    rng.shuffle(p)
    return [b[i] for i in p] + [b[i + 3] for i in p]


def rnd_grid(rng):
    h = lambda lo, hi: [rng.randint(lo, hi) for _ in range(3)]
    pad = lambda: [] if rng.random() < .5 else [h(1, 4), h(1, 4), [2 * x for x in h(0, 4)], [2 * x for x in h(0, 4)], rng.randint(0, 1)]
    k = rng.random()
    if k < .3:
        return ["cells", rnd_box(rng), [rng.choice([1, 2, 3, 4, 5, 6, 8]) for _ in range(3)], pad()]
    if k < .6:
        return ["steps", rnd_box(rng), h(1, 5), rng.randint(0, 1), pad()]
    if k < .7:
        return ["native", h(-4, 4), h(1, 6), [rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(3)]]
    line = lambda: sorted(rng.sample(range(-6, 12), rng.randint(2, 6)))
    return [rng.choice(["lines", "file"]), line(), line(), line()]


def rnd_doc(rng, focus=""):
    """A document whose parts are mostly sound; which ones are not is for the specification to say."""
    lots = lambda f, n: rng.randint(1, n) if focus == f else rng.randint(0, max(1, n // 2))
    ids = lambda n, hi=40: rng.sample(range(1, hi), n)
    d = dict(ver="0.14", solver=[], mats=[], grid=rnd_grid(rng), layers=[], coords=[], elems=[], conns=[], srcs=[], outs=[], omit=[], bad=[])
    if rng.random() < .6:
        d["solver"] = [rng.choice(["ugrfdtd", "cudg3d"]), rng.choice([1, 2, 2, 3, 4]), rng.choice([[], [["cfl", "n", "0.8"], ["flag", "b", "1"], ["sub", "o", [["t", "s", "x y"], ["u", "b", "0"]]]]])]
    d["mats"] = [rnd_mat(rng, i) for i in ids(lots("mats", 6))]
    d["layers"] = [[i, rng.choice(["l%d" % i, "one-layer", ""])] for i in ids(rng.randint(1, 3))]
    nc = rng.randint(4, 10)
    d["coords"] = [[i] + [rng.randint(-6, 9) for _ in range(3)] for i in ids(nc)]
    # a horizontal rectangle for the ports
    x, y, z, w, hh = rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(1, 5), rng.randint(1, 5)
    cs = [c[0] for c in d["coords"]]
    for k, (a, b) in enumerate([(0, 0), (w, 0), (w, hh), (0, hh)]):
        d["coords"][k][1:] = [x + a, y + b, z]
    flat = cs[:4]
    rng.shuffle(d["coords"])
    ei = ids(12, 60)
    mat = lambda: rng.choice([0, 0] + [m[0] for m in d["mats"]])
    lay = lambda: rng.choice([0] + [l[0] for l in d["layers"]])
    d["elems"].append(["Qua4", ei[0], mat(), lay(), flat])
    d["elems"].append(["Line", ei[1], mat(), lay(), rng.sample(cs, 2)])
    for k in range(lots("elems", 8)):
        t, n = rng.choice([("Line", 2), ("Tri3", 3), ("Tet4", 4), ("Hex8", 8), ("Line", 2)])
        if len(cs) >= n:
            d["elems"].append([t, ei[2 + k], mat(), lay(), rng.sample(cs, n)])
    rng.shuffle(d["elems"])
    of = lambda t: [e[1] for e in d["elems"] if e[0] == t]
    mag = lambda: rng.choice([["G", rng.randint(1, 9)], ["B", 2, 5], ["F", "exc.txt"]])
    d["conns"] = [[rng.choice(cs)] + rnd_mat(rng, 0, True)[1:] for _ in range(rng.choice([0, 0, 1, 2]))]
    for _ in range(lots("srcs", 5)):
        k = rng.choice(["pw", "gen", "line", "wg", "tem"])
        if k == "pw":
            axes = rng.choice([[0, 0, 1, 1, 0, 0], [1, 2, 2, 2, 1, -2], [0, -3, 0, 0, 0, 2], [1, 1, 0, 0, 0, 1]])
            p = rng.choice([["v"] + axes, ["a"] + rng.choice([[1, 0, 0, 0], [1, 1, 1, 2], [0, 0, 1, 3], [2, 0, 1, 0]]), ["r", rng.randint(1, 9), rng.randint(0, 5)]])
            d["srcs"].append([k, mag(), rnd_box(rng), p])
        elif k == "gen":
            d["srcs"].append([k, mag(), rng.sample(cs, rng.randint(1, 3)), [rng.choice(["voltage", "current"])]])
        elif k == "line":
            d["srcs"].append([k, mag(), rng.sample(of("Line"), rng.randint(1, len(of("Line")))), [rng.choice(["electricField", "magneticField"]), rng.choice(["soft", "hard"])]])
        elif k == "wg":
            d["srcs"].append([k, mag(), of("Qua4"), [rng.choice(["TE", "TM"])] + rng.choice([[1, 0], [0, 1], [2, 3], [1, 1]])])
        else:
            d["srcs"].append([k, mag(), of("Qua4"), [rng.choice(["Voltage", "Current"]), [rng.randint(-4, 4) for _ in range(3)], rng.choice([1, 2]), rng.choice([3, 4, 5])]])
    dom = lambda: [rng.random() < .7, rng.randint(0, 9), rng.randint(0, 9), rng.randint(1, 9), rng.random() < .5, rng.randint(0, 9), rng.randint(0, 9), rng.randint(1, 9), rng.random() < .5, rng.random() < .5, "tf%d.txt" % rng.randint(0, 9)]
    for _ in range(lots("outs", 6)):
        g = rng.choice(["point", "line", "surface", "layer", "far"])
        t = {"point": lambda: rng.sample(cs, rng.randint(1, 3)), "line": lambda: rng.sample(of("Line"), rng.randint(1, len(of("Line")))), "surface": lambda: of("Qua4") + of("Tri3"),
             "layer": lambda: shuffle_dims(rng, rnd_box(rng, rng.randint(0, 3))), "far": lambda: rnd_box(rng)}[g]()
        if g == "far":
            d["outs"].append([g, "far", rng.choice(["farField", "electricField"]), dom(), t, [rng.randint(0, 36) * 10 for _ in range(6)]])
        elif rng.random() < .3:
            d["outs"].append([g, "b", rng.choice(["bulkCurrentElectric", "bulkCurrentMagnetic"]), dom(), t, [rng.choice("xyz"), rng.randint(1, 5)]])
        else:
            d["outs"].append([g, rng.choice(["o", "probe 1"]), rng.choice(["electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "surfaceCurrentDensity", "current"]), dom(), t, []])
    return d


def rnd_bad(rng, d):
    sec = rng.choice([s for s in ("mats", "srcs", "outs", "layers", "grid") if d[s]])
    if sec == "grid":
        return [sec, 1, "gridType", rng.choice(["lose", "Uniform"])]
    k = rng.randrange(len(d[sec]))
    x = d[sec][k]
    keys = {"mats": mat_keys, "srcs": src_keys, "outs": out_keys, "layers": lambda l: ["id", "name"]}[sec](x)
    key = rng.choice(keys)
    how = "lose"
    if key in LABEL.get(sec, ()) and rng.random() < .6 and not (key == "gidOutputType" and x[2].startswith("bulk")):
        how = rng.choice(["", "unknown", "Electric", "none", "pec", "TEM"])
    return [sec, k + 1, key, how]


def gen_import(rng, focus):
    d = rnd_doc(rng, focus)
    ops = [["style", rng.randint(0, 59)], ["doc", d]]
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if focus == "bad" and k < .6:
            ops.append(["set", "bad", [rnd_bad(rng, d)]])
            ops.append(["set", "bad", []])
            continue
        if k < .15:
            ops.append(["style", rng.randint(0, 59)])
        elif k < .35:
            ops.append(["set", "grid", rnd_grid(rng)])
        elif k < .45:
            ops.append(["set", "solver", ["s", rng.choice([1, 2, 3, 5]), []]])
        elif k < .55:
            x = rng.choice(["omit", "ver", "coord", "elem", "mat"])
            if x == "omit":
                ops += [["set", "omit", [rng.choice(["_version", "solverOptions", "materials", "grids", "layers", "coordinates", "elements", "hexahedra", "tetrahedra", "quadrilateral", "triangle", "line", "connectorOnPoint", "sources", "outputRequests"])]], ["set", "omit", []]]
            elif x == "ver":
                ops += [["set", "ver", rng.choice(["0.13", "0.1", "1.0", ""])], ["set", "ver", "0.14"]]
            elif x == "coord":
                ops += [["del", "coords", rng.randint(1, len(d["coords"]))]]
            elif x == "elem":
                # (a reference above the file's own elements may name one made by the import: see KNOWN_FINDINGS.txt)
                hi = max(e[1] for e in d["elems"])
                ops += [["del", "elems", 1 + k] for k in [rng.choice([q for q, e in enumerate(d["elems"]) if e[1] != hi])]]
            elif d["mats"]:
                ops += [["del", "mats", 1]]
            break
        else:
            e = rnd_doc(rng, focus)
            ops.append(["doc", e])
            d = e
    return ops


def imports(mode, focus, quick, depth=3):
    def body(run):
        exe = vlib.build(run.scratch, "import.cpp", srcdirs=("src/core", "src/parser/json"))
        r = run.model("ImportMC", mc_cfg("J", ' Level = %d\n Mode = "%s"' % (2 if run.deep else 1, mode), depth=depth), mode, heap="8g")
        cases = r["cases"]
        run.notes["model_cases"] = len(cases)
        run.rng.shuffle(cases)
        cases = numbered(cases[:quick if not run.deep else 60000], "j") + numbered([gen_import(run.rng, focus) for _ in range(quick if not run.deep else 20000)], "r")
        run.conform(exe, "ImportTrace", trace_cfg("J"), cases)
    return body


for _p, _a in {"P13": ("mesh", "elems", 1500), "P14": ("mats", "mats", 1500), "P15": ("devs", "srcs", 1500), "P16": ("grid", "grid", 1500), "P17": ("reject", "bad", 1500)}.items():
    check(_p)(imports(*_a))


def gen_stl(rng):
    ops = [["style", rng.randint(0, 419)]]
    pts = [[rng.randint(-40, 40) for _ in range(3)] for _ in range(rng.randint(4, 9))]
    n = 0
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        if not n or k < .2:
            ops.append(["solid", rng.choice(["", "vcg", "solid", "facet", "outer", "a-b.c", "end", "x1"])])
            n += 1
        elif k < .85:
            ops.append(["facet", rng.sample(pts, 3)])
        elif k < .9:
            ops.append(["style", rng.randint(0, 419)])
        elif k < .94 and n > 1:
            ops.append(["drop"])
            n -= 1
        else:
            ops += [["cut", rng.choice(["opened", "vertices", "number", "closed", "garbage"])], ["cut", ""]]
    return ops


@check("P18")
def stl(run):
    exe = vlib.build(run.scratch, "stl.cpp", srcdirs=("src/core", "src/parser/stl"))
    r = run.model("StlMC", mc_cfg("Z", " Level = %d" % (2 if run.deep else 1), depth=4 if not run.deep else 5), "stl", heap="8g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    cases = numbered(cases[:4000 if not run.deep else 60000], "z") + numbered([gen_stl(run.rng) for _ in range(2500 if not run.deep else 40000)], "r")
    run.conform(exe, "StlTrace", trace_cfg("Z"), cases)
