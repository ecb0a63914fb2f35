"""Grids, boxes, meshes."""
from registry import check, mc_cfg, trace_cfg, numbered
import vlib


def grid_axis(rng, n=None):
    x = rng.choice([0, 0, 64, -64, -256, 128 * rng.randint(-6, 6)])
    q = [x]
    reg = rng.choice([64, 128, 256, None, None])
    for _ in range(n or rng.randint(1, 5)):
        q.append(q[-1] + (reg or rng.choice([64, 128, 256])))
    return q


def gen_grid(rng, nops=18):
    pos = [grid_axis(rng) for _ in range(3)]
    ops = []
    w = rng.random()
    if w < .2:
        lo = [64 * rng.randint(-4, 4) for _ in range(3)]
        st = [rng.choice([64, 128, 256]) for _ in range(3)]
        hi = [lo[d] + st[d] * rng.randint(0, 3) + rng.choice([0, 64, 1, 3, st[d] - 1, rng.randint(1, st[d])]) for d in range(3)]
        hi = [max(hi[d], lo[d] + 1) for d in range(3)]
        ops.append(["box", lo, hi, st])
        pos = [[lo[d] + i * st[d] for i in range(-(-(hi[d] - lo[d]) // st[d]) + 1)] for d in range(3)]
    elif w < .4:
        lo = [64 * rng.randint(-4, 4) for _ in range(3)]
        st = [rng.choice([64, 128, 256]) for _ in range(3)]
        n = [rng.randint(1, 5) for _ in range(3)]
        ops.append(["dims", lo, [lo[d] + st[d] * n[d] for d in range(3)], n])
        pos = [[lo[d] + i * st[d] for i in range(n[d] + 1)] for d in range(3)]
    else:
        ops.append([rng.choice(["setPos", "ctor"]), pos])

    def pt(d):
        q = pos[d]
        return rng.choice([rng.choice(q) + rng.choice([0, 0, 0, 1, -1, 2, -2, 3, -3, 6, -6, 13, 32, -32, 64]), rng.randint(q[0] - 20, q[-1] + 20), rng.randint(q[0], q[-1])])
    scaled = 0
    for _ in range(nops):
        if rng.random() < .1:
            base = rng.choice([256, 512, 300])
            ax = []
            for d in range(3):
                b, n, g = base if rng.random() < .7 else rng.choice([base + 1, base // 2, base + 2, base + 40]), rng.randint(1, 7), rng.random()
                if g < .4:
                    ax.append([b] * n)
                elif g < .7:
                    ax.append([b + rng.choice([1, 2, -1]) * (k if rng.random() < .9 else 0) for k in range(n)])
                else:
                    ax.append([b + rng.choice([0, 0, 0, 1, -1, 2, 20]) for k in range(n)])
            ops.append(["regular", ax])
            continue
        w = rng.choice(["cell"] * 6 + ["cell3"] * 4 + ["isCell", "isCell", "into", "into1", "natural", "natural", "frac", "frac", "posOf", "boxOf", "around",
                                                        "around", "range", "range", "centers", "extra", "copy", "assign", "scale"])
        d = rng.randint(0, 2)
        p = [pt(k) for k in range(3)]
        if w == "cell":
            ops.append([w, d, p[d], rng.random() < .5, rng.choice([1, 1, 1, 5, 20])])
        elif w == "cell3":
            ops.append([w, p, rng.random() < .5])
        elif w in ("isCell", "into", "frac"):
            if w == "isCell" and rng.random() < .6:
                p = [rng.choice(pos[k]) + rng.choice([0, 0, 0, 1, -1]) for k in range(3)]
            ops.append([w, p])
        elif w in ("into1", "natural"):
            ops.append([w, d, p[d]])
        elif w == "posOf":
            ops.append([w, [rng.randint(0, len(pos[k]) - 1) for k in range(3)]])
        elif w == "boxOf":
            lo = [rng.randint(0, len(pos[k]) - 1) for k in range(3)]
            ops.append([w, lo, [rng.randint(lo[k], len(pos[k]) - 1) for k in range(3)]])
        elif w == "around":
            ops.append([w, [rng.randint(pos[k][0], pos[k][-1] - 30) for k in range(3)]])
        elif w == "range":
            a, b = sorted([pt(d), pt(d)])
            ops.append([w, d, a, b])
        elif w == "centers":
            q = [sorted([pt(k), pt(k)]) for k in range(3)]
            ops.append([w, [x[0] for x in q], [x[1] for x in q]])
        elif w == "extra":
            b, st = rng.randint(0, 1), [rng.choice([64, 128, 256]) for _ in range(rng.randint(1, 2))]
            if scaled:
                continue
            ops.append([w, d, b, st])
            for x in st:
                pos[d] = pos[d] + [pos[d][-1] + x] if b else [pos[d][0] - x] + pos[d]
        elif w == "scale":
            if scaled or rng.random() < .5:
                continue
            scaled = 1
            a, b = rng.choice([(1, 2), (2, 1), (1, 1)])
            if any(s * a // b > 512 or s * a % b for q in pos for s in q) and b > 1:
                continue
            ops.append([w, a, b])
            pos = [[x * a // b for x in q] for q in pos]
        else:
            ops.append([w])
    return ops


@check("P08")
def p08(run):
    exe = vlib.build(run.scratch, "grid.cpp")
    r = run.model("GridMC", mc_cfg("G", " Level = %d" % (2 if run.deep else 1), depth=2), "x")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:20000 if not run.deep else 200000], "x") + numbered([gen_grid(run.rng) for _ in range(1500 if not run.deep else 20000)], "r")
    run.conform(exe, "GridTrace", trace_cfg("G"), cases)


def gen_enlarge(rng):
    u = 625

    def axis():
        q = [16 * u * rng.randint(-4, 4) + rng.choice([0, 8 * u])]
        for _ in range(rng.randint(1, 4)):
            q.append(q[-1] + u * rng.choice([2, 4, 8, 16, 16, 24, 32, 64]))
        return q
    pos = [axis() for _ in range(3)]
    ops = [["setPos", pos]]

    def pair(d, b):
        w = pos[d][1] - pos[d][0] if b == 0 else pos[d][-1] - pos[d][-2]
        siz = rng.choice([0, w, w // 2 // u * u, 2 * w, 3 * w, w + u, u * rng.randint(1, 100)])
        siz = min(siz, 8 * w)
        pad = rng.choice([0, w, 2 * w, 5 * w, w + u, 2 * w - u, siz, 3 * siz, u * rng.randint(1, 600)])
        if siz > w:
            pad = min(pad, 40 * siz)
        return min(pad, 60 * w), siz
    for _ in range(3):
        if rng.random() < .5:
            d, b = rng.randint(0, 2), rng.randint(0, 1)
            ops.append(["bound", d, b] + list(pair(d, b)))
        else:
            lo, up = [pair(d, 0) for d in range(3)], [pair(d, 1) for d in range(3)]
            ops.append(["enlarge", [x[0] for x in lo], [x[1] for x in lo], [x[0] for x in up], [x[1] for x in up]])
        if rng.random() < .6:
            break
    return ops


@check("P09")
def p09(run):
    exe = vlib.build(run.scratch, "enlarge.cpp")
    r = run.model("EnlargeMC", mc_cfg("L", " Level = %d" % (2 if run.deep else 1), depth=2), "x")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases, "x") + numbered([gen_enlarge(run.rng) for _ in range(3000 if not run.deep else 40000)], "r")
    run.conform(exe, "EnlargeTrace", trace_cfg("L"), cases)


def gen_box(rng, nops=20):
    """Random sequences; A is known to be non-empty (and B, where both are used)."""
    ops = [["kind", rng.choice("RI")]]
    k = rng.choice([2, 3, 6])

    def pt():
        return [rng.randint(-k, k) for _ in range(3)]

    def pt2(p):
        return [rng.choice([x, rng.randint(-k, k), rng.randint(-k, k)]) for x in p]
    reg = {"A": None, "B": None}

    def join(a, b):
        if a is None or b is None:
            return a or b
        return ([min(x, y) for x, y in zip(a[0], b[0])], [max(x, y) for x, y in zip(a[1], b[1])])
    for r in "AB":
        p = pt()
        q = pt2(p)
        ops.append([rng.choice(["set", "ctor", "pair"]), r, p, q])
        reg[r] = join((p, p), (q, q))
    for _ in range(nops):
        w = rng.choice(["set", "set", "set", "empty", "point", "join", "extend", "assign", "scale", "rel", "rel", "inter", "inter", "inside", "inside", "pos",
                        "axis", "face", "chop", "chop", "chopGrid", "chopGrid"])
        r = rng.choice("AB")
        a, b = reg["A"], reg["B"]
        p = rng.choice([pt(), pt2(a[0])] if a else [pt()])
        if w == "set":
            q = pt2(p)
            ops.append([rng.choice(["set", "ctor", "pair"]), r, p, q])
            reg[r] = join((p, p), (q, q))
        elif w == "empty":
            ops.append([w, r])
            reg[r] = None
        elif w == "point":
            ops.append([w, r, p])
            reg[r] = join(reg[r], (p, p))
        elif w in ("join", "extend") and (b or w == "join"):
            ops.append([w])
            reg["A"] = join(a, b)
        elif w == "assign":
            ops.append([w])
            reg["A"] = b
        elif a is None:
            continue
        elif w == "scale" and ops[0][1] == "R":
            f = rng.choice([1, 2, 3])
            if max(map(abs, a[0] + a[1])) * f < 40:
                ops.append([w, f])
                reg["A"] = ([x * f for x in a[0]], [x * f for x in a[1]])
        elif w == "rel" and b:
            ops.append([w])
        elif w == "inter" and b and all(a[0][d] <= b[1][d] and b[0][d] <= a[1][d] for d in range(3)):
            ops.append([w])
        elif w == "inside":
            ops.append([w, p])
        elif w in ("pos", "axis"):
            ops.append([w])
        elif w == "face":
            ops.append([w, rng.randint(0, 2), rng.randint(0, 1)])
        elif w in ("chop", "chopGrid"):
            if max(a[1][d] - a[0][d] for d in range(3)) > 14:
                continue
            if w == "chop":
                ops.append([w, [rng.choice([1, 2, 3, 4, 7, 20, 0, -1]) for _ in range(3)]])
            else:
                ops.append([w, [sorted(rng.sample(range(-10, 11), rng.randint(2, 8))) for _ in range(3)]])
    return ops


@check("P10")
def p10(run):
    exe = vlib.build(run.scratch, "box.cpp")
    r = run.model("BoxMC", mc_cfg("B", " Level = %d" % (2 if run.deep else 1), depth=4), "x", workers=1, heap="6g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    run.notes["model_cases"] = len(cases)
    cases = numbered(cases[:15000 if not run.deep else 200000], "x") + numbered([gen_box(run.rng) for _ in range(1500 if not run.deep else 20000)], "r")
    run.conform(exe, "BoxTrace", trace_cfg("B"), cases)
