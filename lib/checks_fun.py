"""Sampled functions and magnitudes, polynomials and bases on simplices (P35, P36)."""
import vlib
from registry import check, mc_cfg, trace_cfg, numbered

GAPS = [1, 1, 2, 2, 3, 4, 6, 12]


def gen_sampled(rng, nops=14):
    def samples():
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6])
        xs = [rng.choice([0, 0, 0, -2, 1, 3, 5])]
        for _ in range(n - 1):
            xs.append(xs[-1] + rng.choice(GAPS))
        if rng.random() < .25:                          # a straight line, or a constant
            a, b = rng.randint(-3, 3), rng.choice([0, 0, 1, -2])
            ys = [a + b * x for x in xs]
        else:
            ys = [rng.randint(-30, 30) for _ in xs]
        p = [[x, y] for x, y in zip(xs, ys)][:n]
        if p and rng.random() < .4:
            for _ in range(rng.randint(1, 2)):
                p.append([rng.choice(p)[0], rng.randint(-30, 30)])
        if rng.random() < .6:
            rng.shuffle(p)
        return p
    k, has, cv, pts = ["none"] * 4, [False] * 4, [False] * 4, [0] * 4
    fp = [0] * 3                                        # numbers of pairs in the files
    ops = []

    def pick(kinds, ok=lambda i: True):
        c = [i for i in range(4) if k[i] in kinds and ok(i)]
        return rng.choice(c) if c else None

    def put(i, *v):
        k[i], has[i], cv[i], pts[i] = v
    for _ in range(rng.randint(3, nops)):
        w = rng.choice(["file", "file", "lin", "lin", "lin", "linfile", "num", "num", "mag", "mag", "mag", "mag0", "num0", "conv", "conv", "conv", "conv", "copy", "copy", "assign", "assign", "drop", "rmfile"])
        i, f = rng.randint(0, 3), rng.randint(0, 2)
        if w == "file":
            t = [[v] for p in samples() for v in p]
            if rng.random() < .2:
                t.insert(rng.randint(0, len(t)), [])
            if rng.random() < .2:
                t.append([rng.randint(-5, 5)])
            # the same pairs whatever ends them
            n, j = 0, 0
            while j + 1 < len(t) and t[j] and t[j + 1]:
                n, j = n + 1, j + 2
            xs = sorted(set(t[2 * m][0] for m in range(n)))
            if any(b - a not in (1, 2, 3, 4, 6, 12) for a, b in zip(xs, xs[1:])):
                continue
            ops.append([w, f, t, rng.random() < .5])
            fp[f] = n
        elif w == "rmfile":
            ops.append([w, f])
            fp[f] = 0
        elif w == "lin":
            p = samples()
            ops.append([w, i, p])
            put(i, "lin", True, False, len(p))
        elif w in ("linfile", "num"):
            ops.append([w, i, f])
            if fp[f]:
                put(i, w[:3], True, False, fp[f])
        elif w == "mag":
            j = pick(["lin"])
            if j is not None:
                ops.append([w, i, j])
                put(i, "mag", has[j], cv[j], pts[j])
        elif w in ("mag0", "num0"):
            ops.append([w, i])
            put(i, w[:3], False, False, 0)
        elif w == "conv":
            j = pick(["mag", "num"], lambda j: k[j] == "num" or not cv[j])
            if j is None:
                continue
            h, t = rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([0, 1, 2, 5, 9, 12, 12, 17, 30])
            if rng.random() < .15:
                h, t = 0, rng.choice([1000, 2000, 3000])
            ops.append([w, i, j, f, h, t, rng.randint(0, 2)])
            if k[j] == "num":
                put(i, k[j], has[j], cv[j], pts[j])
            else:
                fp[f] = 0
                if has[j] and pts[j] and (h == 0 or t >= h):
                    put(i, "num", True, True, 2)
        elif w == "copy":
            j = pick(["lin", "mag", "num"])
            if j is not None:
                ops.append([w, i, j])
                put(i, k[j], has[j], cv[j], pts[j])
        elif w == "assign" and k[i] != "none":
            j = pick([k[i]] if rng.random() < .6 else [k[i], "num"] if k[i] == "mag" else [k[i]])
            if j is not None:
                ops.append([w, i, j])
                put(i, k[i], has[j], cv[j], pts[j])
        elif w == "drop" and k[i] != "none":
            ops.append([w, i])
            put(i, "none", False, False, 0)
    return ops


@check("P35")
def p35(run):
    exe = vlib.build(run.scratch, "sampled.cpp")
    r = run.model("SampledMC", mc_cfg("V", " Level = 1", depth=3 if not run.deep else 4), "small", heap="6g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    cases = numbered(cases[:5000 if not run.deep else 60000], "m") + numbered([gen_sampled(run.rng) for _ in range(3000 if not run.deep else 60000)], "r")
    run.conform(exe, "SampledTrace", trace_cfg("V"), cases)


class Poly:
    def __init__(self, nv, c=None, k=0):
        self.nv, self.c, self.k = nv, {w: v for w, v in (c or {}).items() if v}, k

    def cross(self, o, f, nv):
        c = {}
        for u, a in self.c.items():
            for v, b in o.c.items():
                c[f(u, v)] = c.get(f(u, v), 0) + a * b
        return Poly(nv, c, self.k + o.k)

    def small(self):
        return self.k <= 8 and sum(abs(v) * 2 ** sum(w) for w, v in self.c.items()) * 1024 < 2 ** 29 and len(self.c) < 60


def gen_polys(rng, nops=14):
    p = [Poly(1), Poly(1), Poly(1)]
    ops = []
    for _ in range(rng.randint(3, nops)):
        w = rng.choice(["new", "add", "add", "add", "add", "add", "mul", "imul", "ext", "iext", "div", "der", "der", "rz", "copy", "assign", "vec", "mat", "tomat"])
        i, j, k = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2)
        if w == "new":
            op, q = [w, i, rng.randint(1, 3)], None
            q = Poly(op[2])
        elif w == "add":
            for _ in range(rng.randint(1, 4)):
                x = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(p[i].nv)]
                v = rng.randint(-4, 4)
                q = Poly(p[i].nv, dict(p[i].c), p[i].k)
                q.c[tuple(x)] = q.c.get(tuple(x), 0) + v * 2 ** q.k
                q = Poly(q.nv, q.c, q.k)
                if q.small():
                    ops.append([w, i, x, v])
                    p[i] = q
            continue
        elif w in ("mul", "imul"):
            a, b = (p[j], p[k]) if w == "mul" else (p[i], p[j])
            if a.nv != 1 or b.nv != 1:
                continue
            op, q = ([w, i, j, k] if w == "mul" else [w, i, j]), a.cross(b, lambda u, v: (u[0] + v[0],), 1)
        elif w in ("ext", "iext"):
            a, b = (p[j], p[k]) if w == "ext" else (p[i], p[j])
            if a.nv + b.nv > 4:
                continue
            op, q = ([w, i, j, k] if w == "ext" else [w, i, j]), a.cross(b, lambda u, v: u + v, a.nv + b.nv)
        elif w == "div":
            d = rng.choice([1, -1, 2, -2])
            op, q = [w, i, d], Poly(p[i].nv, {x: v if d > 0 else -v for x, v in p[i].c.items()}, p[i].k + (abs(d) == 2))
        elif w == "der":
            d = rng.randint(0, p[i].nv - 1)
            op, q = [w, i, d], Poly(p[i].nv, {x[:d] + (x[d] - 1,) + x[d + 1:]: v * x[d] for x, v in p[i].c.items() if x[d]}, p[i].k)
        elif w in ("copy", "assign"):
            op, q = [w, i, j], p[j]
        elif w == "vec":
            v = [rng.choice([0, rng.randint(-5, 5)]) for _ in range(rng.randint(0, 4))]
            op, q = [w, i, v], Poly(1, {(n,): x for n, x in enumerate(v)})
        elif w == "mat":
            r, c = rng.randint(1, 4), rng.choice([1, 1, 2, 3])
            m = [[rng.choice([0, rng.randint(-5, 5)]) for _ in range(c)] for _ in range(r)]
            op, q = [w, i, m], Poly(1 if c == 1 else 2, {((a,) if c == 1 else (a, b)): m[a][b] for a in range(r) for b in range(c)})
        elif w == "tomat":
            if p[i].nv != 1:
                continue
            op, q = [w, i], p[i]
        else:
            op, q = [w, i], p[i]
        if q.small():
            ops.append(op)
            p[i] = q
    return ops


def simplex_cases(rng, n):
    out = []
    for d in (1, 2, 3):
        for o in (1, 2, 3, 4):
            out.append([["nodes", d, o], ["weights", d, o]])
    for _ in range(n):
        d, o = rng.choice([1, 2, 2, 3, 3, 3]), rng.randint(1, 4)
        ops = []
        for _ in range(12):
            q = [0] * (d + 1)
            for _ in range(o):
                q[rng.randint(0, d)] += 1
            if rng.random() < .5:
                q = [rng.randint(0, o + 1) for _ in range(d + 1)]
            ops.append(["basis", d, o, rng.randint(0, 34), q] if rng.random() < .5 else ["dbasis", d, o, rng.randint(0, 34), q, rng.randint(0, d)])
        out.append(ops)
    return out


@check("P36")
def p36(run):
    exe = vlib.build(run.scratch, "polys.cpp")
    r = run.model("PolysMC", mc_cfg("I", " Level = %d" % (2 if run.deep else 1), depth=3), "small", heap="6g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    cases = numbered(cases[:4000 if not run.deep else 60000], "m") + numbered([gen_polys(run.rng) for _ in range(3000 if not run.deep else 60000)], "r")
    cases += numbered(simplex_cases(run.rng, 400 if not run.deep else 6000), "s")
    run.conform(exe, "PolysTrace", trace_cfg("I"), cases)


def gen_scalars(rng, nops=12):
    ops = []
    n = lambda a=30: rng.randint(-a, a)
    num = lambda: [n(rng.choice([3, 30, 1000])), 1 if rng.random() < .12 else 0]
    div = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 21, 22, 25, 29, 31]       # one more than the divisors of 840
    for _ in range(rng.randint(2, nops)):
        w = rng.choice(["cmp", "cmp", "cmp", "ceil", "round", "sign", "lin", "linI", "log", "stats", "statsI", "sph", "ray", "dtft", "dtft", "phase", "spectrum"])
        if w == "cmp":
            a = num()
            b = num() if rng.random() < .6 else [a[0] * rng.choice([1, 1, -1]) + rng.choice([0, 0, 1, -1]), a[1]]
            ops.append([w, a, b, rng.choice([0, 0, 0, 1, 5, 16, 1000]), rng.choice([-1, -1, 0, 1, 2, 8])])
        elif w == "ceil":
            ops.append([w, n(100), rng.choice([0, 0, 1, 2, 4])])
        elif w in ("round", "sign"):
            ops.append([w, n(200)])
        elif w in ("lin", "linI", "log"):
            m = rng.choice(div)
            k = max(m - 1, 1)
            if w == "log":
                a = rng.randint(-4, 3)
                b = a if k > 7 else rng.choice([x for x in range(-4, 4) if (x - a) % k == 0])
            else:
                a = n()
                b = a + k * rng.randint(-4, 4) if w == "linI" else n(300)
            ops.append([w, a, b, rng.choice([m, m, m, m, 0]) if m != 1 else 1])
        elif w in ("stats", "statsI"):
            m = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
            q = [n(rng.choice([9, 1000])) for _ in range(m)]
            if w == "statsI" and rng.random() < .7:
                q[-1] -= sum(q) % m
            ops.append([w, q])
        elif w == "sph":
            ops.append([w, [rng.choice([0, 0, n()]) for _ in range(3)]])
        elif w == "ray":
            ops.append([w, rng.randint(0, 2), rng.randint(-4, 5), [n(9) for _ in range(3)]])
        elif w == "dtft":
            t, q = n(8), []
            for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 8])):
                q.append([t, n(9), n(9)])
                t += rng.randint(1, 5)
            ops.append([w, q, rng.randint(-4, 4)])
        elif w == "phase":
            ops.append([w, n(9), rng.randint(-2, 2)])
        elif rng.random() < .2:
            ops.append([w, rng.randint(1, 3), rng.randint(0, 4), rng.randint(-2, 3), rng.randint(-3, 3)])
    return ops


@check("P37")
def p37(run):
    exe = vlib.build(run.scratch, "scalars.cpp")
    r = run.model("ScalarsMC", mc_cfg("U", " Level = %d" % (2 if run.deep else 1), depth=1), "x", heap="4g")
    cases = numbered(r["cases"], "x") + numbered([gen_scalars(run.rng) for _ in range(3000 if not run.deep else 60000)], "r")
    run.notes["model_cases"] = len(r["cases"])
    run.conform(exe, "ScalarsTrace", trace_cfg("U"), cases)
