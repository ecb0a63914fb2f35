"""Meshes and data sets: copies, conversions, scaling."""
from registry import check, mc_cfg, trace_cfg, numbered
import vlib

U = 256


def gen_mesh(rng, mode, nops=14):
    """A random history over three registers; a mirror keeps only what legal arguments need."""
    reg = [None, None, None]

    def axis():
        q = [64 * rng.randint(-3, 3)]
        for _ in range(rng.randint(1, 3)):
            q.append(q[-1] + rng.choice([64, 64, 128, 192]))
        return q

    def lays():
        ids = rng.sample(range(1, 6), rng.randint(0, 3))
        return [[i, "lay%d" % i] for i in ids]

    def mesh(kind):
        grid = [axis() for _ in range(3)]
        ls = lays()
        cs, es = [], []
        ids = rng.sample(range(1, 99), 70)
        eids = rng.sample(range(1, 40), 12)

        def new(k, p, x=(0, 0, 0)):
            cs.append([ids.pop(), k, list(p), list(x)])
            return cs[-1][0]

        def lm():
            return [rng.choice([0] + [l[0] for l in ls]), rng.randint(0, 5)]
        if kind == "S":
            n = [len(q) - 1 for q in grid]

            def cell():
                return [rng.randint(0, n[d]) for d in range(3)]

            def coord():
                k = rng.choice("IIILC")
                p = cell()
                if k == "L":
                    return new(k, p, [rng.randint(0, 3) for _ in range(3)])
                if k == "C":
                    d = rng.randint(0, 2)
                    return new(k, p, [d, rng.randint(0, 3) if p[d] < n[d] else 0, 0])
                return new(k, p)
            for _ in range(rng.randint(0, 6)):
                ty = rng.choice(["Node", "Line", "Line", "LConf", "Poly", "Qua4", "Hex8", "box2", "box3"])
                if ty == "LConf":
                    v = []
                    for _ in range(2):
                        p = cell()
                        d = rng.randint(0, 2)
                        v.append(new("C", p, [d, rng.randint(0, 3) if p[d] < n[d] else 0, 0]))
                elif ty in ("box2", "box3"):
                    v, ty = boxv(rng, [list(range(n[d] + 1)) for d in range(3)], 2 if ty == "box2" else 3, lambda p: new("I", p))
                else:
                    k = {"Node": 1, "Line": 2, "Qua4": 4, "Hex8": 8}.get(ty) or rng.randint(2, 5)
                    v = [coord() if not cs or rng.random() < .6 else rng.choice(cs)[0] for _ in range(k)]
                es.append([eids.pop(), ty, v] + lm())
        else:
            def pt():
                out = []
                for q in grid:
                    i = rng.randint(0, len(q) - 2)
                    out.append(rng.choice(q + q + q + [q[i] + (q[i + 1] - q[i]) // 4, q[i + 1] - (q[i + 1] - q[i]) // 4, q[0] - 32, q[-1] + 48]))
                return out
            for _ in range(rng.randint(0, 6)):
                ty = rng.choice(["Node", "Line", "Line", "Poly", "Tri3", "Qua4", "Hex8", "Tet4", "Tri6", "box1", "box1", "box2", "box2", "box3", "box3"])
                if ty.startswith("box"):
                    v, ty = boxv(rng, grid, int(ty[3]), lambda p: new("R", p))
                    if rng.random() < .25:   # one vertex a little off
                        cs[-1][2][rng.randint(0, 2)] += 16
                elif ty == "Tet4":
                    v = [new("R", p) for p in ([0, 0, 0], [64, 0, 0], [0, 64, 0], [0, 0, 64])]
                else:
                    k = {"Node": 1, "Line": 2, "Qua4": 4, "Hex8": 8, "Tri3": 3, "Tri6": 6}.get(ty) or rng.randint(2, 5)
                    v = [new("R", pt()) if not cs or rng.random() < .6 else rng.choice(cs)[0] for _ in range(k)]
                es.append([eids.pop(), ty, v] + lm())
        rng.shuffle(cs)
        rng.shuffle(es)
        return [kind, grid if kind != "U" else [], cs[:], es, ls], grid

    ops = []
    for _ in range(nops):
        live = [i for i in range(3) if reg[i]]
        w = rng.choice({"copy": ["copy", "clone", "assign", "edit", "edit", "edit", "edit", "edit", "drop", "retarget", "toS", "toU", "scale"],
                        "conv": ["toS", "toS", "toU", "toU", "edit", "copy", "scale", "new"],
                        "scale": ["scale", "scale", "scale", "copy", "edit", "toS", "toU", "step", "assign"]}[mode])
        if not live or w == "new" or rng.random() < .05:
            i = rng.randint(0, 2)
            m, grid = mesh(rng.choice("USG") if mode != "conv" else rng.choice("USGG"))
            ops.append(["new", i] + m)
            reg[i] = {"k": m[0], "grid": [list(q) for q in grid], "cs": [c[0] for c in m[2]], "ck": {c[0]: c[1] for c in m[2]},
                      "es": [[e[0], e[1], list(e[2])] for e in m[3]], "ls": [l[0] for l in m[4]], "f": 1}
            continue
        i = rng.choice(live)
        m = reg[i]
        j = rng.randint(0, 2)
        dup = lambda: {"k": m["k"], "grid": [list(q) for q in m["grid"]], "cs": list(m["cs"]), "ck": dict(m["ck"]),
                       "es": [[a, b, list(c)] for a, b, c in m["es"]], "ls": list(m["ls"]), "f": m["f"]}
        if w in ("copy", "clone", "assign"):
            if w == "assign" and (not reg[j] or reg[j]["k"] != m["k"]):
                continue
            if w != "assign" and i == j:
                continue
            ops.append([w, j, i])
            reg[j] = dup()
        elif w == "drop" and len(live) > 1:
            ops.append([w, i])
            reg[i] = None
        elif w == "toS" and m["k"] in "UG" and i != j and m["f"] == 1:
            g = m["grid"]
            ops.append([w, j, i, [] if m["k"] == "G" and rng.random() < .5 else g])
            reg[j] = dup()
            reg[j]["k"] = "S"
            reg[j]["ck"] = {c: "I" for c in m["cs"]}
            reg[j]["es"] = []     # which elements are left is not tracked here
        elif w == "toU" and m["k"] == "S" and i != j:
            ops.append([w, j, i])
            reg[j] = dup()
            reg[j]["k"] = "U"
            reg[j]["ck"] = {c: "R" for c in m["cs"]}
            reg[j]["es"] = [e for e in reg[j]["es"] if e[1] != "Poly"]
        elif w == "scale":
            a, b = rng.choice([(2, 1), (1, 2), (4, 1), (1, 4), (1, 1), (3, 1)])
            f = m["f"] * a / b
            if not .25 <= f <= 40:
                continue
            m["f"] = f
            ops.append([w, i, a, b])
            m["grid"] = [[x * a // b for x in q] for q in m["grid"]]
        elif w == "step" and m["k"] == "S":
            ops.append([w, i])
        elif w == "retarget":
            ids = [e[0] for e in m["es"]]
            ops.append([w, i, rng.sample(ids, rng.randint(0, len(ids)))])
        elif w == "edit":
            e = rng.choice(m["es"]) if m["es"] else None
            x = rng.choice(["setLay", "setMat", "setV", "move", "addC", "addE", "addL", "remE", "pad", "bound"])
            if x == "setLay" and e:
                ops.append([x, i, e[0], rng.choice([0] + m["ls"])])
            elif x == "setMat" and e:
                ops.append([x, i, e[0], rng.randint(0, 5)])
            elif x == "setV" and e and e[1] not in ("LConf",):
                ops.append([x, i, e[0], rng.randint(1, len(e[2])), rng.choice(m["cs"])])
            elif x == "move" and m["cs"]:
                c = rng.choice(m["cs"])
                if m["k"] == "S":
                    if m["ck"][c] != "I":
                        continue
                    ops.append([x, i, c, [rng.randint(0, len(m["grid"][d]) - 1) for d in range(3)]])
                elif m["f"] == 1:
                    ops.append([x, i, c, [rng.choice(m["grid"][d]) for d in range(3)]])
            elif x == "addC" and m["f"] == 1:
                c = max(m["cs"] + [0]) + 1
                if m["k"] == "S":
                    ops.append([x, i, [c, "I", [rng.randint(0, len(m["grid"][d]) - 1) for d in range(3)], [0, 0, 0]]])
                else:
                    ops.append([x, i, [c, "R", [rng.choice(m["grid"][d]) for d in range(3)], [0, 0, 0]]])
                m["cs"].append(c)
                m["ck"][c] = ops[-1][2][1]
            elif x == "addE" and len(m["cs"]) > 1:
                v = [rng.choice(m["cs"]) for _ in range(2)]
                k = 50 + len(ops)
                ops.append([x, i, [k, "Line", v, rng.choice([0] + m["ls"]), rng.randint(0, 5)]])
                m["es"].append([k, "Line", v])
            elif x == "addL" and len(m["ls"]) < 5:
                k = max(m["ls"] + [0]) + 1
                ops.append([x, i, [k, "extra"]])
                m["ls"].append(k)
            elif x == "remE" and e:
                ops.append([x, i, [e[0], 99]])
                m["es"].remove(e)
            elif x == "pad" and m["k"] in "SG" and m["f"] == 1:
                d = rng.randint(0, 2)
                ops.append([x, i, d, 64])
                m["grid"][d].append(m["grid"][d][-1] + 64)
            elif x == "bound" and m["k"] == "S":
                ops.append([x, i, rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 3)])
    return ops


def boxv(rng, axes, dim, new):
    """Corners of a random box over the axes, in a random order; new(p) -> id."""
    ds = rng.sample(range(3), dim)
    lo = [rng.choice(q) for q in axes]
    hi = list(lo)
    for d in ds:
        lo[d], hi[d] = sorted(rng.sample(axes[d], 2)) if len(axes[d]) > 1 else (axes[d][0],) * 2
    pts = [[]]
    for d in range(3):
        pts = [p + [v] for p in pts for v in ([lo[d], hi[d]] if d in ds else [lo[d]])]
    if dim == 2:
        pts = [pts[0], pts[1], pts[3], pts[2]]
    if rng.random() < .5:
        rng.shuffle(pts)
    return [new(p) for p in pts], ["Node", "Line", "Qua4", "Hex8"][dim]


def mesh_check(run, mode, depth):
    exe = vlib.build(run.scratch, "mesh.cpp")
    r = run.model("MeshMC", mc_cfg("M", " Mode = \"%s\"\n Level = %d" % (mode, 2 if run.deep else 1), depth=depth), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:8000 if not run.deep else 100000], "x") + numbered([gen_mesh(run.rng, mode) for _ in range(1500 if not run.deep else 15000)], "r")
    run.conform(exe, "MeshTrace", trace_cfg("M"), cases)
    return exe


@check("P06")
def p06(run):
    mesh_check(run, "conv", 4 if run.deep else 3)


@check("P07")
def p07(run):
    mesh_check(run, "scale", 5 if run.deep else 4)


def gen_data(rng, nops=14):
    """A random history over three data sets."""
    reg = [None] * 3
    ops = []

    def pick(ids, kinds, ty, k):
        ok = [i for i in ids if kinds[i] in ty]
        return rng.sample(ok, min(len(ok), rng.randint(0, k)))
    SRC = {"gen": ["Node"], "line": ["Line", "Poly"], "pw": ["Hex8", "Tet4"], "dip": ["Hex8", "Tet4"]}
    OUT = {"elem": None, "bulk": None, "far": ["Hex8", "Tet4"]}
    while len(ops) < nops:
        live = [i for i in range(3) if reg[i]]
        i = rng.randint(0, 2)
        w = rng.choice(["build", "copy", "copy", "clone", "assign", "assign", "drop", "mesh", "mesh", "mesh", "srcSet", "outSet", "outName",
                        "srcDel", "outDel", "matAdd", "matName", "solver"])
        if not live or w == "build":
            mats = [[[k, "m%d" % k] for k in rng.sample(range(1, 6), rng.randint(0, 5))]] if rng.random() < .8 else []
            mids = [m[0] for m in mats[0]] if mats else []
            m = []
            kinds = {2: "Node", 3: "Node", 5: "Line", 6: "Line", 8: "Hex8", 9: "Hex8"}
            if rng.random() < .8:
                while True:
                    m = next(o for o in gen_mesh(rng, "copy", 1) if o[0] == "new")[2:]
                    if m[0] != "G":
                        break
                kinds = {e[0]: e[1] for e in m[3]}
                for e in m[3]:
                    e[4] = rng.choice([0] + mids) if mats else e[4]
            ids = list(kinds)
            fit = lambda ty: ids if ty is None else [k for k in ids if kinds[k] in ty]
            some = lambda ty: rng.sample(fit(ty), rng.randint(0, len(fit(ty))))
            srcs = [[[t, some(SRC[t])] for t in [rng.choice(list(SRC)) for _ in range(rng.randint(0, 3))]]] if rng.random() < .8 else []
            outs = [[[t, rng.choice(["o", "p", "q"]), some(OUT[t])] for t in [rng.choice(list(OUT)) for _ in range(rng.randint(0, 3))]]] if rng.random() < .8 else []
            sol = rng.choice([[], ["s"], ["t"]])
            ops.append(["build", i, m, mats, srcs, outs, sol])
            reg[i] = dict(m=m, kinds=kinds, mats=mids if mats else None, srcs=[s[0] for s in srcs[0]] if srcs else None,
                          outs=[o[0] for o in outs[0]] if outs else None)
            continue
        j = rng.choice(live)
        if w in ("copy", "clone", "assign"):
            if w != "assign" and i == j:
                continue
            r = reg[j]
            reg[i] = {k: (list(v) if isinstance(v, list) else v) for k, v in r.items()}
            ops.append([w, i, j])
            continue
        i, x = j, reg[j]
        if w == "drop":
            if len(live) > 1:
                ops.append([w, i])
                reg[i] = None
        elif w == "mesh" and x["m"]:
            k, m = rng.choice(["setMat", "setLay", "move"]), x["m"]
            if k == "setMat" and m[3] and x["mats"] is not None:
                ops.append([w, i, k, rng.choice(m[3])[0], rng.choice([0] + x["mats"])])
            elif k == "setLay" and m[3]:
                ops.append([w, i, k, rng.choice(m[3])[0], rng.choice([0] + [l[0] for l in m[4]])])
            elif k == "move" and m[2]:
                c = rng.choice(m[2])
                if m[0] == "U":
                    ops.append([w, i, k, c[0], [64 * rng.randint(-2, 2) for _ in range(3)]])
                elif c[1] == "I":
                    ops.append([w, i, k, c[0], [rng.randint(0, len(m[1][d]) - 1) for d in range(3)]])
        elif w in ("srcSet", "outSet") and x[w[:3] + "s"]:
            k = rng.randint(1, len(x[w[:3] + "s"]))
            ty = (SRC if w == "srcSet" else OUT)[x[w[:3] + "s"][k - 1]]
            fit = [e for e in x["kinds"] if ty is None or x["kinds"][e] in ty]
            ops.append([w, i, k, rng.sample(fit, rng.randint(0, len(fit)))])
        elif w == "outName" and x["outs"]:
            ops.append([w, i, rng.randint(1, len(x["outs"])), rng.choice("xyz")])
        elif w in ("srcDel", "outDel") and x[w[:3] + "s"]:
            k = rng.randint(1, len(x[w[:3] + "s"]))
            ops.append([w, i, k])
            x[w[:3] + "s"].pop(k - 1)
        elif w == "matAdd" and x["mats"] is not None:
            k = max(x["mats"] + [0]) + 1
            ops.append([w, i, k, "new%d" % k])
            x["mats"].append(k)
        elif w == "matName" and x["mats"]:
            ops.append([w, i, rng.choice(x["mats"]), rng.choice("xyz")])
        elif w == "solver":
            ops.append([w, i, rng.choice("uvw")])
    return ops


@check("P05")
def p05(run):
    mesh_check(run, "copy", 4 if run.deep else 3)
    exe = vlib.build(run.scratch, "dataset.cpp")
    r = run.model("DataSetMC", mc_cfg("D", " Level = 1", depth=5 if run.deep else 4), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["data_model_cases"] = len(cases)
    cases = numbered(cases[:6000 if not run.deep else 100000], "d") + numbered([gen_data(run.rng) for _ in range(1500 if not run.deep else 20000)], "e")
    run.conform(exe, "DataSetTrace", trace_cfg("D"), cases)
