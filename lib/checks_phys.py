"""Sources, output requests, boundaries, materials and algebra."""
import json
import vlib
from registry import check, mc_cfg, trace_cfg, numbered

KINDS = {"elem": [1, 2, 4, 5, 7, 8, 9, 10, 11, 12], "nod": [1, 2], "lin": [4, 5], "surf": [7, 8, 9, 10], "vol": [11, 12],
         "bulk": [1, 2, 4, 5, 7, 8, 9, 11, 12], "far": [11, 12], "gen": [1, 2], "line": [4, 5], "pw": [11, 12], "dip": [11, 12],
         "wg": [7, 8, 9], "tem": [7, 8, 9]}
MATS = {"elem": [3, 6, 13], "nod": [3], "lin": [6], "surf": [], "vol": [13], "bulk": [3, 6, 13], "far": [13], "gen": [3], "line": [6],
        "pw": [13], "dip": [13], "wg": [10], "tem": []}


def subset(rng, ids, lo=0):
    return rng.sample(ids, rng.randint(min(lo, len(ids)), min(4, len(ids))))


def dom(rng):
    b = lambda: rng.random() < .5
    v = lambda: rng.choice([0, 0, 1, 2, 5, 1000, -3])
    return [b(), v(), v(), v(), b(), v(), v(), v(), b(), b(), rng.choice(["", "tf.dat", "x y.txt"])]


def nearly(rng, d):
    """the domain or magnitude with one thing changed, or none"""
    d = json.loads(json.dumps(d))
    if d and rng.random() < .8:
        k = rng.randrange(len(d))
        if isinstance(d[k], list):
            d[k][rng.randrange(2) if k == len(d) - 1 else 1] += 1
        else:
            d[k] = not d[k] if isinstance(d[k], bool) else d[k] + "x" if isinstance(d[k], str) else d[k] + rng.choice([1, -1])
    return d


def gen_devices(rng, mode, nmax=14):
    s = [None] * 3
    kept = {}
    ops = []
    while len(ops) < rng.randint(4, nmax):
        live = [i for i in range(3) if s[i]]
        if not live or rng.random() < .3:
            i = rng.randint(0, 2)
            if mode == "out":
                c = rng.choice(["elem", "elem", "nod", "lin", "surf", "vol", "bulk", "far"])
                els = subset(rng, KINDS[c] + (MATS[c] if rng.random() < .5 else []))
                par = [rng.randint(0, 2), rng.randint(1, 9)] if c == "bulk" else [rng.randint(-9, 99) for _ in range(6)] if c == "far" else []
                if c == "bulk":
                    els = [e for e in els if e not in MATS[c]]
                ty = rng.randint(0, 9)
                ops.append(["out", i, c, rng.choice(["a", "b", "", "long name"]), ty, dom(rng), els, par])
                kept[i] = ops[-1][5]
                if c not in ("bulk", "far") and ty in (5, 6) and set(els) & {3, 6, 13}:
                    continue
                s[i] = (c, list(els), ty, [], None)
            else:
                c = rng.choice(["gen", "line", "pw", "pw", "dip", "wg", "wg", "tem"])
                ts = sorted(rng.sample(range(-5, 30), rng.randint(2, 5)))
                mag = [[t, rng.randint(-9, 9)] for t in ts] if rng.random() < .8 else []
                if kept and rng.random() < .3:
                    mag = nearly(rng, rng.choice(list(kept.values())))
                    ts = [m[0] for m in mag]
                kept[i] = mag
                els = subset(rng, KINDS[c] + (MATS[c] if rng.random() < .3 else []), 1)
                ok = True
                if c == "gen":
                    par = [rng.randint(1, 2), rng.randint(0, 1)]
                elif c == "line":
                    par = [rng.randint(1, 2), rng.randint(1, 2)]
                elif c == "dip":
                    par = [rng.randint(1, 9), [rng.randint(-3, 3) for _ in range(3)], [rng.randint(-9, 9) for _ in range(3)]]
                elif c == "tem":
                    a = rng.randint(1, 4)
                    par = [rng.choice(["voltage", "current"]), [rng.randint(-3, 8), rng.randint(-3, 8), 0], a, a + rng.randint(1, 6)]
                elif c == "wg":
                    par = [rng.choice(["TE", "TM"]), rng.randint(0, 3), rng.randint(0, 3)]
                    ok = 10 not in els and els and (par[1] or par[2])
                else:
                    k = rng.choice("vvaar")
                    if k == "v":
                        d = [rng.choice([0, 0, 1, -1, 2]) for _ in range(3)]
                        p = [rng.choice([0, 0, 1, -1, 3]) for _ in range(3)]
                        if rng.random() < .6:
                            q = p
                            p = [d[1] * q[2] - d[2] * q[1], d[2] * q[0] - d[0] * q[2], d[0] * q[1] - d[1] * q[0]]
                        ok = any(d) and any(p) and sum(x * y for x, y in zip(d, p)) == 0
                        par = ["v"] + d + p
                    elif k == "a":
                        par = ["a"] + [rng.randint(0, 4) for _ in range(4)]
                        sn = [0, 1, 0, -1]
                        pol = lambda t, f: (sn[t % 4] * sn[(f + 1) % 4], sn[t % 4] * sn[f % 4], sn[(t + 1) % 4])
                        ok = sum(x * y for x, y in zip(pol(par[1], par[2]), pol(par[3], par[4]))) == 0
                    else:
                        par = ["r", rng.randint(1, 50), rng.randint(0, 9)]
                ops.append(["src", i, c, mag, els, par])
                if not ok:
                    continue
                s[i] = (c, list(els), 0, [m[0] for m in mag], par)
            continue
        i = rng.choice(live)
        c, els, ty, ts, par = s[i]
        k = rng.random()
        if k < .2:
            j = rng.choice([x for x in range(3) if x != i])
            if rng.random() < .3 and mode == "out":
                ops.append(["base", j, i])
                s[j] = ("elem", [], ty, ts, par)
            else:
                ops.append([rng.choice(["clone", "copy"]), j, i])
                s[j] = (c, list(els), ty, ts, par)
        elif k < .24:
            ops.append(["drop", i])
            s[i] = None
        elif k < .42:
            e = subset(rng, KINDS[c], 1 if c in ("wg", "tem") else 0)
            ops.append(["set", i, e])
            s[i] = (c, e, ty, ts, par)
        elif k < .52 and c not in ("wg", "tem"):
            e = [x for x in subset(rng, KINDS[c]) if x not in els]
            ops.append(["add", i, e])
            s[i] = (c, els + e, ty, ts, par)
        elif mode == "out":
            j = rng.choice(live)
            if rng.random() < .3 and i != j and i in kept:
                ops.append(["domain", j, nearly(rng, kept[i])])
                kept[j] = ops[-1][2]
                ops.append(["eqdom", i, j])
                continue
            ops.append(rng.choice([["name", i, rng.choice(["z", "", "n n"])], ["final", i, rng.randint(0, 9)], ["sampling", i, rng.randint(0, 9)],
                                   ["domain", i, dom(rng)], ["eqdom", i, j], ["eqdom", i, j]]))
            if ops[-1][0] in ("final", "sampling"):
                kept.pop(i, None)
            elif ops[-1][0] == "domain":
                kept[i] = ops[-1][2]
        elif c in ("wg", "tem"):
            ops.append(["weight", i, [rng.randint(0, 4), rng.randint(0, 4), 0]])
        elif c == "pw" and ts and par[0] != "r" and rng.random() < .8:
            ops.append(["field", i, rng.choice(ts)])
        elif ts:
            j = rng.choice([x for x in live if s[x][3]])
            ops.append(["eqmag", i, j])
    return ops


def devices(run, mode):
    exe = vlib.build(run.scratch, "devices.cpp")
    r = run.model("DevicesMC", mc_cfg("Q", ' Level = 1\n Mode = "%s"' % mode, depth=4 if run.deep else 3), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:9000 if not run.deep else 120000], "x") + numbered([gen_devices(run.rng, mode) for _ in range(3000 if not run.deep else 30000)], "r")
    run.conform(exe, "DevicesTrace", trace_cfg("Q"), cases)


@check("P24")
def p24(run):
    devices(run, "out")


@check("P32")
def p32(run):
    devices(run, "src")


BCS = ["PEC", "PMC", "PML", "Periodic", "Mur1", "Mur2", "SMA", "-"]
BLS = ["PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"]


def gen_bounds(rng):
    m = [False, False]
    ops = []

    def grid():
        return [sorted(rng.sample(range(-6, 12), rng.randint(2, 4))) for _ in range(3)]
    while len(ops) < rng.randint(4, 20):
        regs = [0, 1, 2] + [3 + i for i in (0, 1) if m[i]]
        ms = [r for r in regs if r > 2]
        k = rng.random()
        if k < .3:
            ops.append(["set", rng.choice(regs), rng.randint(0, 2), rng.randint(0, 1), rng.choice(BCS)])
        elif k < .4:
            ops.append([rng.choice(["all", "new"]), rng.choice([r for r in regs if r != 2]), [rng.choice(BCS) for _ in range(6)]])
        elif k < .48:
            ops.append(["from", rng.choice([r for r in regs if r != 2]), rng.choice(regs)])
        elif k < .55:
            ops.append(["label", 2, rng.randint(1, 6), rng.choice(BLS + ["Mur1", "none", "PEC "])])
        elif k < .62:
            ops.append(["labels", 2, [rng.choice(BLS + ["", ""]) for _ in range(6)]])
        elif k < .72 or not ms:
            i = rng.randint(0, 1)
            ops.append(["mesh", 3 + i, grid(), rng.choice(regs)])
            m[i] = True
        elif k < .82:
            a = rng.choice(ms)
            t = 7 - a if rng.random() < .8 else a
            w = rng.choice(["copy", "clone", "assign"])
            if w == "assign" and not m[t - 3]:
                w = "copy"
            ops.append([w, t, a])
            m[t - 3] = True
        elif k < .86:
            ops.append(["scale", rng.choice(ms), rng.choice([2, 3, 10])])
        elif k < .9:
            r = rng.choice(regs)
            ops.append(["drop", r])
            if r > 2:
                m[r - 3] = False
        else:
            ops.append([rng.choice(["faces", "faces", "lines"]), rng.choice(ms)])
    return ops


@check("P33")
def p33(run):
    exe = vlib.build(run.scratch, "bounds.cpp", srcdirs=("src/core", "src/mesher"))
    r = run.model("BoundsMC", mc_cfg("N", " Level = 1", depth=3 if run.deep else 2), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:6000 if not run.deep else 100000], "x") + numbered([gen_bounds(run.rng) for _ in range(5000 if not run.deep else 60000)], "r")
    run.conform(exe, "BoundsTrace", trace_cfg("N"), cases)


def gen_models(rng):
    s = [None] * 5                     # kind of the model of each register, or None
    ops = []
    eu = lambda: [rng.randint(-3, 6) for _ in range(3)]
    org = lambda: [rng.randint(-9, 9) for _ in range(3)]
    v = lambda: rng.choice([0, 1, 2, 2, 3, 7, 40, 999])
    z = lambda: [rng.randint(-9, 9) for _ in range(8)]
    nm = lambda: rng.choice(["a", "b", "", "long name", "PEC"])
    files = ["disp.txt", "other.dat", "missing.txt"]

    def args(k):
        if k == "Classic":
            return [rng.choice([2, 2, 2, -2, 0, 1, 9]), rng.choice([2, 2, 0, 1, 9]), rng.choice([0, 0, 1, 8]), rng.choice([0, 0, 3])][:rng.choice([4, 4, 4, 3, 2, 1, 0])]
        if k == "Dispersive":
            return [v(), v(), rng.choice([0, 1, 7, 20]), 0 if rng.random() < .85 else 2,
                    [[rng.choice([0, 0, -1, -7]), rng.choice([0, 0, 3]), rng.randint(-9, 9), 0 if rng.random() < .5 else 2] for _ in range(rng.randint(0, 4))]]
        if k == "DispFile":
            return [rng.choice(files)]
        if k == "PML":
            return eu() + org()
        if k == "Crystal":
            return eu() + org() + [v(), v(), v(), v()]
        if k == "Ferrite":
            return eu() + org() + [rng.randint(-9, 9), v(), v()]
        if k == "Multilayer":
            return [[[v(), rng.choice([0, 1, 2, 3, 9, 9, 9]), rng.choice([1, 2, 3, 9]), v()] for _ in range(rng.randint(0, 4))],
                    [[v(), v(), rng.randint(0, 9)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]]
        if k == "SIBC":
            return [z(), z(), [[rng.randint(-9, 9), rng.randint(-9, 9), z()] for _ in range(rng.randint(0, 3))]]
        if k == "SIBCFile":
            return rng.choice([["a.mibc", ".mibc"], ["x/y.mibc", ".mibc"], ["a.mibc2", ".mibc2"], ["a.smb.json", ".json"], ["a.b.mibc", ".mibc"]])
        if k == "WireRL":
            return [v(), v(), v()]
        if k == "WireRLC":
            return [v() for _ in range(7)]
        if k == "WireFile":
            return [v(), rng.choice(["w.dat", "", "a b"])]
        if k == "MPre":
            return [rng.choice([0, 1, 2, 3])]
        if k == "MRLC":
            return [rng.randint(11, 18), v(), v(), v()]
        if k == "MDisp":
            return [rng.choice(["m.dat", ""])]
        return [v()] if k == "Gap" else []
    bad = lambda k, a: (k == "Dispersive" and a[3]) or (k == "DispFile" and a[0] == "missing.txt") or (k == "SIBCFile" and a[1] != ".mibc") or \
        (k == "Multilayer" and (any(x[1] == 0 or x[2] == 0 for x in a[0]) or len(a[1]) > 1))
    ports, wires = ["MPre", "MRLC", "MDisp"], ["WireRL", "WireRLC", "WireFile"]
    pool = rng.choice([wires + ports, ["Classic", "Dispersive", "DispFile", "PML", "Crystal", "Ferrite", "Multilayer", "SIBC", "SIBCFile"],
                       wires + ports + ["Classic", "Dispersive", "Gap", "PEC", "PMC", "SMA", "bPEC", "bPMC", "bSMA", "bPML", "bPeriodic", "bMur1", "bMur2"]])
    while len(ops) < rng.randint(5, 18):
        live = [i for i in range(1, 5) if s[i]]
        k = rng.random()
        if not live or k < .3:
            i, c = rng.randint(1, 4), rng.choice(pool)
            a = args(c)
            ops.append(["new", i, c, rng.randint(1, 60), nm(), a])
            if not bad(c, a):
                s[i] = c
            continue
        i = rng.choice(live)
        w = [x for x in live if s[x] in wires + ["Extremes"]]
        p = [x for x in live if s[x] in ports] + [0]
        e = [x for x in live if s[x] == "Extremes"]
        if k < .45 and w:
            j = rng.randint(1, 4)
            ops.append(["ends", j, nm(), rng.choice(w), rng.choice(p), rng.choice(p)])
            s[j] = "Extremes"
        elif k < .65 and e:
            x = rng.choice(e)
            h = rng.choice(["none", "reg", "own", "own", "swap"])
            q = [y for y in p if y]
            if h == "swap":
                ops.append(["swap", x])
            elif h == "none":
                ops.append(["end", x, rng.randint(0, 1), "none"])
            elif h == "reg" and q:
                ops.append(["end", x, rng.randint(0, 1), "reg", rng.choice(q)])
            else:
                ops.append(["end", x, rng.randint(0, 1), "own", rng.randint(0, 1)])
        elif k < .8:
            same = [x for x in live if s[x] == s[i] and s[i] != "PML"]
            if same and rng.random() < .5:
                ops.append(["assign", i, rng.choice(same)])
            else:
                j = rng.randint(1, 4)
                ops.append([rng.choice(["clone", "copy"]), j, i])
                s[j] = s[i]
        elif k < .88:
            ops.append(["drop", i])
            s[i] = None
        else:
            ops.append(rng.choice([["name", i, nm()], ["id", i, rng.randint(0, 99)]]))
    return ops


@check("P29")
def p29(run):
    exe = vlib.build(run.scratch, "models.cpp")
    cases = []
    for mode, depth in (("simple", 3), ("axes", 2), ("surface", 3), ("wire", 5)):
        r = run.model("ModelsMC", mc_cfg("Y", ' Level = %d\n Mode = "%s"' % (2 if run.deep and mode == "axes" else 1, mode), depth=depth + (1 if run.deep else 0)), mode, heap="6g")
        c = r["cases"]
        run.notes["model_cases_" + mode] = len(c)
        run.rng.shuffle(c)
        cases += numbered(c[:3000 if not run.deep else 40000], mode)
    cases += numbered([gen_models(run.rng) for _ in range(4000 if not run.deep else 40000)], "r")
    run.conform(exe, "ModelsTrace", trace_cfg("Y"), cases)


def gen_algebra(rng):
    s = {}                             # register -> rows
    ops = []
    ent = lambda: rng.choice([0, 0, 1, 1, -1, 2, 3, -2, 5, rng.randint(-30, 30)])
    big = lambda m: any(abs(x) > 30000 for r in m for x in r) or len(m) * len(m[0]) > 60
    T = lambda m: [list(x) for x in zip(*m)]

    def mul(a, b):
        return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])

    def can(m):                    # exactly invertible, or singular beyond any rounding
        return abs(det(m)) == 1 or not all(map(any, m)) or not all(map(any, zip(*m)))

    def inv(m):
        d, n = det(m), len(m)
        if n == 1:
            return [[d]]
        mi = lambda p, q: [r[:q] + r[q + 1:] for k, r in enumerate(m) if k != p]
        return [[(-1) ** (i + j) * det(mi(j, i)) * d for j in range(n)] for i in range(n)]

    def mat(r, c):
        if r == c and rng.random() < .5:         # unimodular, by elementary operations
            m = [[int(i == j) for j in range(r)] for i in range(r)]
            for _ in range(rng.randint(1, 5)):
                i, j = rng.randrange(r), rng.randrange(r)
                if i == j:
                    m[i] = [-x for x in m[i]]
                elif rng.random() < .5:
                    m[i], m[j] = m[j], m[i]
                else:
                    k = rng.randint(-2, 2)
                    m[i] = [x + k * y for x, y in zip(m[i], m[j])]
            return m
        m = [[ent() for _ in range(c)] for _ in range(r)]
        if r > 1 and rng.random() < .4:
            m[rng.randrange(r)] = list(m[rng.randrange(r)])
        return m

    def emit(r, m, *op):
        if m and not big(m):
            ops.append(list(op))
            s[r] = [list(x) for x in m]
    n = rng.randint(3, 14)
    for _ in range(200):
        if len(ops) >= n:
            break
        if rng.random() < .2 and not (rng.random() < .5 and s):
            d = rng.choice([2, 3, 3, 4])
            u, w = [[rng.choice([0, 0, 1, -1, rng.randint(-99, 99)]) for _ in range(d)] for _ in range(2)]
            if rng.random() < .3:
                w = list(u)
                w[rng.randrange(d)] += rng.randint(-1, 1)
            o = rng.choice(["add", "sub", "mulv", "dot", "min", "order", "adds", "subs", "muls", "rsub", "set", "neg", "max", "abs", "norm", "conv", "text", "divs", "unit", "perm"]
                           + (["cross", "planes"] if d == 3 else []) + (["axis"] if d < 4 else []))
            k = rng.randint(-5, 5)
            if o == "perm":
                k = rng.randint(0, 7) if d < 4 else 1
            if o == "divs":
                k = k or 3
                u = [x * k for x in u]
            if o in ("unit", "axis") and not any(u):
                continue
            ops.append(["vec", o, u, w, k])
            continue
        if rng.random() < .1:
            f = lambda: [[rng.randint(-9, 9) for _ in range(3)], [rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]) for _ in range(3)]]
            a, b = f(), f()
            if rng.random() < .3:
                b = [list(a[0]), list(a[1])]
            o = rng.choice(["base", "scale", "mean", "near", "eq", "carry", "snap", "join", "snapto", "move"])
            ops.append(["frac", o, a, b, rng.randint(0, 3) if o == "snapto" else rng.randint(0, 1) if o == "move" else 0])
            continue
        r = rng.randint(1, 3)
        if r not in s or rng.random() < .15:
            m = mat(rng.randint(1, 4), rng.randint(1, 4))
            if rng.random() < .1:
                m = [[x[0]] for x in m]
                emit(r, m, "col", r, [x[0] for x in m])
            else:
                emit(r, m, "mat", r, rng.choice(["copy", "set", "rows"]), m)
            continue
        a = s[r]
        R, C = len(a), len(a[0])
        q = rng.choice(list(s))
        b = s[q]
        t = rng.randint(1, 3)
        k = rng.choice([-3, -2, -1, 2, 3, 7])
        i, j = rng.randrange(R), rng.randrange(C)
        o = rng.choice(["zeros", "fill", "t", "t", "cell", "assign", "clone", "add", "mul", "mul", "muls", "divs", "iadds", "iadd", "imuls", "idivs", "kron", "sub", "block", "reshape", "elim", "conv", "sort", "sort", "uniq", "uniqsorted",
                        "merge", "inv", "inv", "lower", "tocol", "torow", "sortby", "sortby", "find", "find", "max", "det", "row", "sym", "arr", "eq", "lt", "cart", "fixed", "fixed", "eye"])
        same = (R, C) == (len(b), len(b[0]))
        srt = lambda m: all(x <= y for x, y in zip(m, m[1:]))
        exact = all(x % k == 0 for y in a for x in y)
        quo = [[x // k for x in y] for y in a]
        if o == "zeros":
            emit(r, [[0] * C] * R, o, r)
        elif o == "fill":
            emit(r, [[k] * C] * R, o, r, k)
        elif o == "t":
            emit(r, T(a), o, r)
        elif o == "cell":
            m = [list(x) for x in a]
            m[i][j] = k
            emit(r, m, o, r, i, j, k)
        elif o in ("assign", "clone"):
            emit(t, a, o, t, r)
        elif o in ("add", "iadd") and same:
            m = [[x + y for x, y in zip(*z)] for z in zip(a, b)]
            emit(t, m, o, t, r, q) if o == "add" else emit(r, m, o, r, q)
        elif o == "mul" and C == len(b):
            emit(t, mul(a, b), o, t, r, q)
        elif o in ("muls", "imuls"):
            m = [[x * k for x in y] for y in a]
            emit(t, m, o, t, r, k) if o == "muls" else emit(r, m, o, r, k)
        elif o in ("divs", "idivs") and exact:
            emit(t, quo, o, t, r, k) if o == "divs" else emit(r, quo, o, r, k)
        elif o == "iadds":
            emit(r, [[x + k for x in y] for y in a], o, r, k)
        elif o == "kron":
            emit(t, [[x * y for x in u for y in w] for u in a for w in b], o, t, r, q)
        elif o in ("sub", "block"):
            i2, j2 = rng.randint(i, R - 1), rng.randint(j, C - 1)
            d = 1 if o == "block" else 0
            emit(t, [x[j:j2 + 1] for x in a[i:i2 + 1]], o, t, r, i, i2 + d, j, j2 + d)
        elif o == "reshape":
            rr = rng.choice([x for x in range(1, R * C + 1) if R * C % x == 0])
            cc, od = R * C // rr, rng.randint(1, 2)
            fl = [x for y in a for x in y] if od == 1 else [x for y in T(a) for x in y]
            emit(t, [fl[x * cc:(x + 1) * cc] for x in range(rr)], o, t, r, rr, cc, od)
        elif o == "elim" and C > 1:
            j2 = rng.randint(j, C - 1)
            if j2 - j + 1 < C:
                emit(t, [x[:j] + x[j2 + 1:] for x in a], o, t, r, j, j2)
        elif o == "conv" and C == 1 and len(b[0]) == 1:
            m = [[sum(a[x][0] * b[y - x][0] for x in range(R) if 0 <= y - x < len(b))] for y in range(R + len(b) - 1)]
            emit(t, m, o, t, r, q)
        elif o == "sort":
            emit(r, sorted(a), o, r)
        elif o == "uniq" or (o == "uniqsorted" and srt(a)):
            emit(r, [list(x) for x in sorted(set(map(tuple, a)))], o, r)
        elif o == "merge" and C == len(b[0]) and srt(a) and srt(b) and r != q:
            emit(r, sorted(a + b), o, r, q)
        elif o == "inv" and R == C and can(a):
            m = inv(a) if det(a) else None
            if m:
                emit(t, m, o, t, r)
            else:
                ops.append([o, t, r])
        elif o == "lower" and R == C:
            emit(r, [[a[y][x] if y > x else a[x][y] for y in range(C)] for x in range(R)], o, r)
        elif o == "tocol":
            v = [ent() for _ in range(R)]
            emit(r, [x[:j] + [v[n_]] + x[j + 1:] for n_, x in enumerate(a)], o, r, j, v)
        elif o == "torow":
            v = [ent() for _ in range(C)]
            emit(r, a[:i] + [v] + a[i + 1:], o, r, i, v)
        elif o == "sortby":
            f, l = sorted([rng.randrange(C), rng.randrange(C)])
            ops.append([o, r, f, l])
        elif o == "find" and srt(a):
            w = rng.randint(1, C)
            v = a[i][:w] if rng.random() < .7 else [ent() for _ in range(w)]
            ops.append([o, r, 0, v])
        elif o in ("max", "sym", "arr"):
            ops.append([o, r])
        elif o == "det" and R == C and R in (3, 4):
            ops.append([o, r])
        elif o == "row":
            ops.append([o, r, i])
        elif o == "eq" or (o == "lt" and same):
            ops.append([o, r, q])
        elif o == "cart" and C == 3:
            ops.append([o, r])
        elif o == "eye" and R == C:
            emit(r, [[int(x == y) for y in range(R)] for x in range(R)], o, r)
        elif o == "fixed" and R <= 4 and C <= 4 and len(b) <= 4 and len(b[0]) <= 4:
            f = ["muls", "imuls", "iadds", "t", "copy", "zeros", "max", "arr", "sym"] + (["add", "iadd", "isub", "eq"] if same else []) + (["mul", "muldyn"] * 2 if C == len(b) else []) + (["vec"] if C == len(b[0]) else [])
            f += (["idivs"] if exact else [])
            if R == C:
                f += ["eye"] + (["diag"] if R == len(b[0]) else []) + (["det"] if R > 2 else []) + (["inv"] * 3 if can(a) else [])
            ops.append([o, rng.choice(f), r, q, k])
    return ops


@check("P30")
def p30(run):
    exe = vlib.build(run.scratch, "algebra.cpp")
    cases = []
    for mode, depth in (("values", 1), ("mats", 3)):
        r = run.model("AlgebraMC", mc_cfg("A", ' Level = %d\n Mode = "%s"' % (2 if run.deep and mode == "values" else 1, mode), depth=depth + (1 if run.deep and mode == "mats" else 0)), mode, heap="6g")
        c = r["cases"]
        run.notes["model_cases_" + mode] = len(c)
        run.rng.shuffle(c)
        cases += numbered(c[:2500 if not run.deep else 40000], mode)
    cases += numbered([gen_algebra(run.rng) for _ in range(2500 if not run.deep else 40000)], "r")
    run.conform(exe, "AlgebraTrace", trace_cfg("A"), cases)
