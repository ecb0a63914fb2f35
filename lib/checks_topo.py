"""Graphs, connectivities and element kinds."""
from registry import check, mc_cfg, trace_cfg, numbered
import vlib


def gen_linegraph(rng, nops=14):
    ops, reg = [], [None] * 3

    def els(lines):
        n, ids = rng.randint(1, 9), rng.sample(range(1, 60), 12)
        if lines:
            return [[ids.pop(), rng.sample(range(1, rng.choice([5, 7, 9])), 2)] for _ in range(n)]
        out = []
        for _ in range(n):
            k = rng.choice([1, 2, 3, 4, 5, 8, 0])
            if k == 0:
                v = rng.sample(range(1, 12), 3)
                out.append([ids.pop(), v + v[:1]])
            else:
                out.append([ids.pop(), rng.sample(range(1, 14), k)])
        return out
    for _ in range(nops):
        i = rng.randint(0, 2)
        w = rng.choice(["init", "copy", "assign", "split", "split", "split", "comps", "comps"])
        if w == "init" or not ops:
            lines = rng.random() < .7
            e = els(lines)
            reg[i] = [lines, len({c for x in e for c in x[1]}), e]
            ops.append(["init", i, e])
        elif w in ("copy", "assign"):
            j = rng.randint(0, 2)
            if w == "copy" and i == j:
                continue
            ops.append([w, i, j])
            reg[i] = list(reg[j]) if reg[j] else None
        elif w == "split" and reg[i] and reg[i][0]:
            ops.append([w, i, rng.randint(0, reg[i][1] - 1)])
        elif w == "comps":
            ops.append([w, i])
    return ops


@check("P11")
def p11(run):
    exe = vlib.build(run.scratch, "linegraph.cpp")
    r = run.model("LineGraphMC", mc_cfg("G", " Level = %d" % (2 if run.deep else 1), depth=5 if run.deep else 4), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:10000 if not run.deep else 100000], "x") + numbered([gen_linegraph(run.rng) for _ in range(3000 if not run.deep else 30000)], "r")
    run.conform(exe, "LineGraphTrace", trace_cfg("G"), cases)


NUM = {"Node": 1, "Line": 2, "Tri3": 3, "Tri6": 6, "Qua4": 4, "Tet4": 4, "Tet10": 10, "Hex8": 8, "LConf": 2}


def det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def vol6(c):
    p = [x[1] for x in c]
    s = [[p[0][d] - p[i][d] for d in range(3)] for i in (1, 2, 3)]
    return det3(*s)


def kind_coords(rng, ty, m=6, regular=False):
    """Positions of an element: often regular (axis aligned), sometimes arbitrary."""
    rp = lambda: [rng.randint(-m, m) for _ in range(3)]
    add = lambda a, b, f=1: [a[d] + f * b[d] for d in range(3)]
    mid = lambda a, b: [(a[d] + b[d]) // 2 for d in range(3)]

    def axis(d, l):
        v = [0, 0, 0]
        v[d] = l
        return v
    o = rp()
    ds = rng.sample(range(3), 3)
    u = [axis(d, rng.choice([-4, -2, -1, 1, 2, 4, 6])) for d in ds]
    w = 1 if regular else rng.random()      # integer surfaces without a normal are not built
    if w < .25:
        u = [rp() for _ in range(3)]
    elif w < .35:
        u = [axis(0, 1), axis(1, 1), axis(2, 1)]
        u[rng.randint(0, 2)] = [rng.randint(-2, 2), rng.randint(-2, 2), 2]
    elif w < .5:            # orthogonal but rotated
        a, b = rng.randint(1, 3), rng.randint(1, 3)
        u = [[a, b, 0], [-b, a, 0], [0, 0, 2]]
        rng.shuffle(u)
    quad = [o, add(o, u[0]), add(add(o, u[0]), u[1]), add(o, u[1])]
    if ty == "Qua4":
        return quad
    if ty == "Hex8":
        return quad + [add(q, u[2]) for q in quad]
    e = [[2 * x for x in v] for v in u]
    A, B, C, D = o, add(o, e[0]), add(o, e[1]), add(o, e[2])
    if ty == "Tri6":
        return [A, mid(A, B), mid(A, C), B, mid(B, C), C]
    if ty == "Tet10":
        return [A, mid(A, B), mid(A, C), mid(A, D), B, mid(B, C), mid(B, D), C, mid(C, D), D]
    return [o, add(o, u[0]), add(o, u[1]), add(o, u[2])][:NUM[ty]]


def gen_kinds(rng, nops=10):
    """Slots are tracked as (type, kind, coordinates) so that only meaningful questions are asked."""
    slot, ops, nid = [None] * 4, [], [0]
    types = ["Node", "Line", "Poly", "Tri3", "Tri6", "Qua4", "Tet4", "Tet10", "Hex8", "LConf"]
    flat = lambda c: any(len({x[1][d] for x in c}) == 1 for d in range(3))

    def fresh(i):
        ty = rng.choice(types)
        k = "R" if ty in ("Tri3", "Tri6", "Tet4", "Tet10") else "I" if ty == "LConf" else rng.choice("RI")
        if ty == "Poly":
            ps = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(rng.randint(1, 6))]
        else:
            ps = kind_coords(rng, ty, regular=k == "I")
        if rng.random() < .25 and k == "R":
            ps[rng.randrange(len(ps))] = [rng.randint(-7, 7) for _ in range(3)]
        if rng.random() < .3 and ty == "Qua4" and k == "R":
            a, b = rng.sample(range(4), 2)
            ps[a], ps[b] = ps[b], ps[a]
        ids = rng.sample(range(1, 90), len(ps))
        c = [[a, p] for a, p in zip(ids, ps)]
        nm = [rng.randint(-3, 3) for _ in range(3)] if ty == "LConf" else []
        ops.append(["new", i, ty, k, rng.choice([0, rng.randint(1, 50)]), rng.randint(0, 3), rng.randint(0, 3), c, nm])
        if not (ty == "Tet4" and flat(c)):
            slot[i] = [ty, k, c]
    sides = {"Tet4": [(0, 1, 2), (1, 0, 3), (2, 3, 0), (3, 2, 1)]}
    verts10 = (0, 4, 7, 9)
    for _ in range(nops):
        i, j = rng.randint(0, 3), rng.randint(0, 3)
        w = rng.choice(["new", "new", "clone", "drop", "setV", "setV", "attr", "linear", "face", "face", "eq", "eq", "coord", "inside", "inside", "boxed", "near"])
        a, b = slot[i], slot[j]
        if w == "new":
            fresh(i)
        elif w == "clone" and b:
            ops.append(["clone", i, j])
            slot[i] = [b[0], b[1], [list(x) for x in b[2]]]
        elif w == "drop":
            ops.append(["drop", i])
            slot[i] = None
        elif w == "setV" and a and not (a[1] == "I" and a[0] in ("Qua4", "Hex8")):
            q = rng.randrange(len(a[2]))
            c = [rng.choice([a[2][q][0], rng.randint(1, 90)]), [rng.randint(-6, 6) for _ in range(3)]]
            new = [list(x) for x in a[2]]
            new[q] = c
            if a[0] == "Tet4" and (flat(new)):
                continue
            ops.append(["setV", i, q + 1, c])
            a[2] = new
        elif w == "attr" and a:
            ops.append(["attr", i, rng.randint(0, 3), rng.randint(0, 3)])
        elif w == "linear" and b and b[0] in ("Tri3", "Tri6", "Tet10"):
            nc = [b[2][q] for q in ((0, 3, 5) if b[0] == "Tri6" else verts10 if b[0] == "Tet10" else (0, 1, 2))]
            if b[0] == "Tet10" and flat(nc):
                continue
            ops.append(["linear", i, j])
            slot[i] = ["Tet4" if b[0] == "Tet10" else "Tri3", "R", [list(x) for x in nc]]
        elif w == "face" and b and b[0] in ("Tet4", "Tet10"):
            six = b[0] == "Tet10" and rng.random() < .5
            f = rng.randint(0, 3)
            ops.append(["face", i, j, f, 6 if six else 3])
            v = b[2] if b[0] == "Tet4" else [b[2][q] for q in verts10]
            slot[i] = ["Tri6" if six else "Tri3", "R", [list(v[q]) for q in sides["Tet4"][f]] + ([None] * 3 if six else [])]
            if six:     # the specification knows its coordinates; the generator only needs the number
                slot[i][2] = [[1, [0, 0, 0]]] * 6
            elif rng.random() < .7 and i != j:
                ops.append(["near", j, i])
        elif w == "eq" and a and b:
            ops.append(["eq", i, j])
        elif w == "coord" and a:
            c = rng.choice(a[2])
            ops.append(["coord", i, rng.choice([list(c), [c[0], [c[1][0] + 1] + c[1][1:]], [c[0] + 1, c[1]]])])
        elif w == "inside" and a and a[0] == "Tet4" and vol6(a[2]) != 0:
            v = [x[1] for x in a[2]]
            for _ in range(4):
                q = [rng.choice([0, 1, 2, 4, -1, 5]) for _ in range(3)]
                p = [4 * v[0][d] + sum(q[n] * (v[n + 1][d] - v[0][d]) for n in range(3)) for d in range(3)]
                ops.append(["inside", i, p])
        elif w == "boxed":
            lo = [rng.randint(-3, 3) for _ in range(3)]
            ln = [rng.choice([0, 0, 1, 2, 3]) for _ in range(3)]
            if rng.random() < .6:
                n = rng.randint(0, 3)
                ln = [rng.randint(1, 3)] * n + [0] * (3 - n)
                rng.shuffle(ln)
                ty = ["Node", "Line", "Qua4", "Hex8"][n]
            else:
                ty = rng.choice(["Node", "Line", "Qua4", "Hex8"])
            hi = [lo[d] + ln[d] for d in range(3)]
            pre = []
            for _ in range(rng.randint(0, 5)):
                p = [rng.choice([lo[d], hi[d], lo[d] + 7]) for d in range(3)]
                if p not in pre:
                    pre.append(p)
            ops.append(["boxed", i, ty, rng.choice("RI"), lo, hi, pre])
            if ty == ["Node", "Line", "Qua4", "Hex8"][sum(1 for x in ln if x)]:
                ops.append(["drop", i])
                slot[i] = None
    return ops



def cube_rotations():
    """The 24 right-handed numberings of a hexahedron."""
    P = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    import itertools
    out = []
    for perm in itertools.permutations(range(3)):
        for fl in itertools.product((0, 1), repeat=3):
            sgn = 1
            for a in range(3):
                for b in range(a):
                    if perm[b] > perm[a]:
                        sgn = -sgn
            if sgn * (-1) ** sum(fl) != 1:
                continue
            out.append([P.index(tuple(p[perm[d]] ^ fl[d] for d in range(3))) for p in P])
    return out


CUBE = cube_rotations()
HEX_SIDES = [(0, 1, 2, 3), (0, 3, 7, 4), (0, 4, 5, 1), (1, 5, 6, 2), (2, 6, 7, 3), (4, 7, 6, 5)]
TET_SIDES = [(0, 1, 2), (1, 0, 3), (2, 3, 0), (3, 2, 1)]
TET_EVEN = [(0, 1, 2, 3), (0, 2, 3, 1), (0, 3, 1, 2), (1, 0, 3, 2), (1, 2, 0, 3), (1, 3, 2, 0), (2, 0, 1, 3), (2, 1, 3, 0), (2, 3, 0, 1), (3, 0, 2, 1), (3, 1, 0, 2), (3, 2, 1, 0)]


def gen_faces(rng, nmax=14):
    kind = rng.choice(["hex", "tet", "tet10"])
    n = [rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)]
    sx = 1 if kind != "tet10" else 2
    name, pos = {}, {}

    def co(p):
        if p not in name:
            name[p] = len(name) * rng.choice([1, 1, 3]) + 1
            while name[p] in pos:
                name[p] += 1
            pos[name[p]] = [v for v in p]
        return [name[p], pos[name[p]]]
    cells = [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    vols, faces = [], {}
    for c in cells:
        P = [tuple(sx * (c[d] + v[d]) for d in range(3)) for v in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        if kind == "hex":
            q = [P[i] for i in rng.choice(CUBE)]
            vols.append(("Hex8", q))
            for s in HEX_SIDES:
                faces.setdefault(frozenset(q[i] for i in s), [q[i] for i in s])
        else:
            for t in ([0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6], [0, 5, 1, 6]):
                q = [P[t[i]] for i in rng.choice(TET_EVEN)]
                for s in TET_SIDES:
                    faces.setdefault(frozenset(q[i] for i in s), [q[i] for i in s])
                if kind == "tet10":
                    m = lambda a, b: tuple((q[a][d] + q[b][d]) // 2 for d in range(3))
                    q = [q[0], m(0, 1), m(0, 2), m(0, 3), q[1], m(1, 2), m(1, 3), q[2], m(2, 3), q[3]]
                vols.append(({"tet": "Tet4", "tet10": "Tet10"}[kind], q))
    rng.shuffle(vols)
    vols = vols[:rng.randint(1, nmax)]
    surfs = []
    for f in rng.sample(sorted(faces.values()), min(len(faces), rng.randint(0, 8))):
        r = rng.randrange(len(f))
        f = f[r:] + f[:r]
        if rng.random() < .5:
            f = f[::-1]
        if kind == "tet10":
            m = lambda a, b: tuple((f[a][d] + f[b][d]) // 2 for d in range(3))
            f = [f[0], m(0, 1), m(2, 0), f[1], m(1, 2), f[2]]
        surfs.append(({"hex": "Qua4", "tet": "Tri3", "tet10": "Tri6"}[kind], f))
    els = vols + surfs
    rng.shuffle(els)
    ids = rng.sample(range(1, 99), len(els))
    ops, live = [], []
    for (ty, q), i in zip(els, ids):
        ops.append(["add", i, ty, [co(p) for p in q]])
        live.append(i)
        if rng.random() < .08:
            ops.append(["drop", live.pop(rng.randrange(len(live)))])
    return ops


@check("P12")
def p12(run):
    exe = vlib.build(run.scratch, "faces.cpp")
    r = run.model("FacesMC", mc_cfg("F", " Level = 1", depth=5 if run.deep else 4), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:6000 if not run.deep else 60000], "x") + numbered([gen_faces(run.rng) for _ in range(1000 if not run.deep else 15000)], "r")
    run.conform(exe, "FacesTrace", trace_cfg("F"), cases)


@check("P31")
def p31(run):
    exe = vlib.build(run.scratch, "kinds.cpp")
    r = run.model("KindsMC", mc_cfg("K", " Level = 1", depth=4 if run.deep else 3), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:8000 if not run.deep else 100000], "x") + numbered([gen_kinds(run.rng) for _ in range(3000 if not run.deep else 30000)], "r")
    run.conform(exe, "KindsTrace", trace_cfg("K"), cases)


def gen_points(rng, nops=12):
    """Coordinates of every kind: registers are tracked so that grids fit the questions."""
    slot, ops = [None] * 4, []
    v = lambda a, b: [rng.randint(a, b) for _ in range(3)]

    def frac(w, g):
        return all(0 <= w[1][d] < len(g[d]) and (w[2][d] == 0 or w[1][d] + 1 < len(g[d])) for d in range(3))

    def grid(lines):
        g = []
        for d in range(3):
            q = sorted(set(8 * rng.randint(-6, 12) for _ in range(rng.randint(2, 5))) | ({lines[d]} if lines else set()))
            g.append(q if len(q) > 1 else q + [q[-1] + 8 * rng.randint(1, 4)])
            if any(b - a > 32 for a, b in zip(g[d], g[d][1:])):
                g[d] = list(range(g[d][0], g[d][-1] + 1, 8))
        return g
    for _ in range(nops):
        i, j = rng.randint(0, 3), rng.randint(0, 3)
        a, b = slot[i], slot[j]
        w = rng.choice(["new", "new", "bare", "blank", "split", "clone", "copy", "assign", "assign", "drop", "id", "move", "rel", "eq", "eq", "struct", "toI", "toR", "toR"])
        k = rng.choice("RICL")
        fr = rng.choice([[0, 0, 0], v(0, 7), v(-3, 12)])
        if w == "new":
            x = [rng.randint(0, 2), rng.randint(0, 8)] if k == "C" else fr if k == "L" else []
            p = v(-40, 80) if k == "R" else v(0, 4)
            ops.append([w, i, k, rng.randint(1, 99), p, x])
            slot[i] = [k, p[:], fr[:] if k == "L" else [x[1] if d == x[0] else 0 for d in range(3)] if k == "C" else [0] * 3]
        elif w == "bare" and k != "L":
            p, x = v(-40, 80) if k == "R" else v(0, 4), [rng.randint(0, 2), rng.randint(0, 8)] if k == "C" else []
            if k == "C":
                p = [0, 0, 0]
            ops.append([w, i, k, p, x])
            slot[i] = [k, p[:], [x[1] if d == x[0] else 0 for d in range(3)] if k == "C" else [0] * 3]
        elif w == "blank":
            ops.append([w, i, k])
            slot[i] = [k, [0] * 3, [0] * 3]
        elif w == "split":
            q = v(-20, 40) if rng.random() < .4 else v(0, 30)
            ops.append([w, i, rng.choice([0, rng.randint(1, 99)]), q])
            slot[i] = ["L", [y // 8 for y in q], [y % 8 for y in q]]
        elif w in ("clone", "copy") and b or w == "assign" and a and b and a[0] == b[0]:
            ops.append([w, i, j])
            slot[i] = [b[0], b[1][:], b[2][:]]
        elif w == "drop" and rng.random() < .3:
            ops.append([w, i])
            slot[i] = None
        elif w == "id" and a:
            ops.append([w, i, rng.randint(1, 9)])
        elif w == "move" and a:
            d, y = rng.randint(1, 3), rng.randint(-40, 80) if a[0] == "R" else rng.randint(0, 4)
            a[1][d - 1] = y
            ops.append([w, i, d, y])
        elif w == "rel" and a and a[0] == "L":
            d, y = rng.randint(1, 3), rng.randint(0, 8)
            a[2][d - 1] = y
            ops.append([w, i, d, y])
        elif w == "eq" and a and b:
            ops.append([w, i, j])
        elif w == "struct" and a and a[0] == "R":
            ops.append([w, i, grid(a[1] if rng.random() < .6 else None)])
        elif w == "toI" and b and b[0] == "R":
            ops.append([w, i, j, grid(b[1])])
            g = ops[-1][3]
            if not all(b[1][d] in g[d] for d in range(3)):
                ops.pop()
                continue
            slot[i] = ["I", [g[d].index(b[1][d]) for d in range(3)], [0] * 3]
        elif w == "toR" and b and b[0] != "R":
            g = grid(None)
            for _ in range(4):
                if not frac(b, g):
                    g = [q + [q[-1] + 8 * y for y in range(1, 6)] for q in g]
            if frac(b, g):
                ops.append([w, i, j, g])
                p = [g[d][b[1][d]] + ((g[d][b[1][d] + 1] - g[d][b[1][d]]) // 8 * b[2][d] if b[2][d] else 0) for d in range(3)]
                slot[i] = ["R", p, [0] * 3]
    return ops


@check("P38")
def p38(run):
    exe = vlib.build(run.scratch, "points.cpp")
    r = run.model("PointsMC", mc_cfg("Q", " Level = %d" % (2 if run.deep else 1), depth=4 if run.deep else 3), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:6000 if not run.deep else 80000], "x") + numbered([gen_points(run.rng) for _ in range(3000 if not run.deep else 40000)], "r")
    run.conform(exe, "PointsTrace", trace_cfg("Q"), cases)


def gen_wires(rng, nmax=16):
    """Chains of lines of one material, joined at shared coordinates, in any order; sometimes noise."""
    ls, nxt = [], [1]
    free = [rng.randint(1, 9)]

    def node(new=.75):
        if rng.random() < new or len(free) < 2:
            nxt[0] += rng.choice([1, 1, 2])
            free.append(nxt[0])
            return nxt[0]
        return rng.choice(free)
    while len(ls) < rng.randint(1, nmax):
        mat, lay = rng.choice([1, 1, 1, 2, 2, 3, 4]), rng.choice([0, 0, 1, 2])
        n = rng.randint(1, 5)
        start = rng.choice(free) if rng.random() < .5 else node(1)
        c = [start] + [node(.9) for _ in range(n)]
        if rng.random() < .15 and n > 1:
            c[-1] = c[0]
        style = rng.random()
        seg = [[a, b, mat, lay] for a, b in zip(c, c[1:]) if a != b]
        if style < .15:
            for s in seg:
                if rng.random() < .3:
                    s[0], s[1] = s[1], s[0]
        elif style < .3:
            seg = [[s[1], s[0]] + s[2:] for s in seg]
        if mat < 3 and rng.random() < .45:
            ends = {}
            for s in seg:
                for k in s[:2]:
                    ends[k] = ends.get(k, 0) + 1
            for e in [k for k in ends if ends[k] == 1]:
                if rng.random() < .6:
                    f = node(1)
                    s = [f, e, rng.choice([5, 6]), lay if rng.random() < .95 else 0]
                    if rng.random() < .12:
                        s[0], s[1] = s[1], s[0]
                    seg.append(s)
        if rng.random() < .1:
            seg.append([node(.2), node(1), rng.choice([5, 7, 7, 3]), lay])
        ls += [s for s in seg if s[0] != s[1]]
    if rng.random() < .8:
        rng.shuffle(ls)
    ls = ls[:nmax]
    ids = rng.sample(range(1, 90), len(ls))
    ops = [["kind", rng.choice("RI")]]
    for i, s in zip(ids, ls):
        ops.append(["line", i] + s)
        if rng.random() < .04:
            ops.append(["drop", rng.choice(ids)])
    return ops


@check("P28")
def p28(run):
    exe = vlib.build(run.scratch, "wires.cpp")
    r = run.model("WiresMC", mc_cfg("W", " Level = %d" % (2 if run.deep else 1), depth=4), "x", heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:8000 if not run.deep else 100000], "x") + numbered([gen_wires(run.rng) for _ in range(2500 if not run.deep else 25000)], "r")
    run.conform(exe, "WiresTrace", trace_cfg("W"), cases)
