"""Seeded random operation sequences, longer than the exhaustive scope."""


def sub(rng, n, k=3):
    return [rng.randint(1, n) for _ in range(rng.randint(0, k))] if n else []


def collections(rng, nops=25):
    """Tracks only the sizes of the two registers needed for legal arguments."""
    kind = rng.choice(["layer", "mat", "coord", "elem"])
    ops = [["kind", kind]]
    # a small mirror: register -> list of (serial); ids are needed to know sizes
    mem = {"A": [], "B": []}

    def legal(ids):
        return 0 not in ids and len(set(ids)) == len(ids)
    objs = 0
    ids = {}  # serial -> id
    for _ in range(nops):
        r = rng.choice("AB")
        o = "B" if r == "A" else "A"
        n, m = len(mem[r]), len(mem[o])
        what = rng.choice(["add", "add", "addId", "addId", "share", "share", "assign", "copy", "move", "assignRaw",
                           "construct", "clone", "remove", "remove", "removeId", "clear", "set", "mark", "get",
                           "getId", "getIds"])
        if what in ("assign", "copy", "move", "clear", "assignRaw", "construct", "clone") and rng.random() < .5:
            continue
        if what in ("add", "assignRaw", "construct"):
            pairs = [[rng.randint(0, 3), rng.choice([0] + list(range(1, 10)) * 2)] for _ in range(rng.randint(0, 3))]
            if what == "construct" and not pairs:
                continue
            new = [p[1] for p in pairs]
            ops.append([what, r, pairs])
            base = [ids[s] for s in mem[r]] if what == "add" else []
            if legal(base + new):
                ser = list(range(objs + 1, objs + 1 + len(new)))
                objs += len(new)
                ids.update(zip(ser, new))
                mem[r] = (mem[r] if what == "add" else []) + ser
        elif what == "addId":
            if max([ids[s] for s in mem[r]] + [0]) > 9:
                continue
            l = [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]
            base = max([ids[s] for s in mem[r]] + [0])
            ops.append([what, r, l])
            ser = list(range(objs + 1, objs + 1 + len(l)))
            objs += len(l)
            ids.update({s: base + i + 1 for i, s in enumerate(ser)})
            mem[r] = mem[r] + ser
        elif what == "share":
            l = sub(rng, m)
            ops.append([what, r, l])
            new = [s for i, s in enumerate(mem[o]) if i + 1 in l]
            if legal([ids[s] for s in mem[r] + new]):
                mem[r] = mem[r] + new
        elif what in ("assign", "copy"):
            ops.append([what, r])
            mem[r] = list(mem[o])
        elif what == "move":
            ops.append([what, r])
            mem[r], mem[o] = mem[o], []
        elif what == "clear":
            ops.append([what, r])
            mem[r] = []
        elif what == "clone":
            ops.append([what, r])
            ser = list(range(objs + 1, objs + 1 + m))
            objs += m
            ids.update({s: ids[t] for s, t in zip(ser, mem[o])})
            mem[r] = ser
        elif what == "remove":
            l = sub(rng, n)
            if l:
                ops.append([what, r, l])
                mem[r] = [s for i, s in enumerate(mem[r]) if i + 1 not in l]
        elif what == "removeId":
            l = [rng.randint(0, 10) for _ in range(rng.randint(0, 3))]
            ops.append([what, r, l])
            mem[r] = [s for s in mem[r] if ids[s] not in l]
        elif what == "set" and n:
            p, i = rng.randint(1, n), rng.randint(0, 9)
            ops.append([what, r, p, rng.randint(0, 3), i])
            new = [ids[s] for s in mem[r]]
            new[p - 1] = i
            if legal(new):
                objs += 1
                ids[objs] = i
                mem[r] = mem[r][:p - 1] + [objs] + mem[r][p:]
        elif what == "mark" and n:
            ops.append([what, r, rng.randint(1, n), rng.randint(0, 3)])
        elif what == "get":
            ops.append([what, r, sub(rng, n, 4)])
        elif what == "getId":
            ops.append([what, r, [rng.randint(0, 10) for _ in range(rng.randint(0, 4))]])
        elif what == "getIds":
            ops.append([what, r])
    return ops


def coords(rng, nops=20):
    xs = [-2, -1, 0, 1, 2]
    uni = [[4 * x, 4 * y, 0] for x in xs for y in (0, 1)] + [[-2, 0, 0], [2, 2, 0], [0, 0, 4], [8, 8, 0]]
    ops = [["universe", uni]]
    pos = lambda: [rng.choice(xs), rng.choice([0, 0, 1]), rng.choice([0, 0, 0, 1])]
    n = 0          # members
    mx = 1         # bound on |position|
    cs = []        # ids mirror
    halves = 0
    for _ in range(nops):
        w = rng.choice(["addPos", "addPos", "addPosDef", "addPosV", "add", "remove", "remove", "removeId", "scale",
                        "clear", "clone", "copy", "moved", "set", "assignRaw", "construct"])
        if w in ("clear", "assignRaw", "construct", "clone") and rng.random() < .6:
            continue
        k = rng.choice("RI")
        if w in ("addPos", "addPosV") or w == "addPosDef":
            p = [pos() for _ in range(rng.randint(0, 4))] if w == "addPosV" else pos()
            ops.append([w, k, p] + ([rng.randint(0, 1)] if w != "addPosDef" else []))
        elif w in ("add", "assignRaw"):
            l = [[rng.choice("RILC"), rng.randint(0, 10) or rng.randint(0, 1), pos()] for _ in range(rng.randint(1, 3))]
            ops.append([w, l] + ([rng.randint(0, 1)] if w == "assignRaw" else []))
        elif w == "construct":
            ops.append([w, k, [pos() for _ in range(rng.randint(1, 3))]])
        elif w in ("remove", "set"):
            ops.append([w, "?"])
        elif w == "removeId":
            ops.append([w, [rng.randint(0, 8) for _ in range(rng.randint(0, 3))]])
        elif w == "scale":
            f = rng.choice([[-1, 1], [2, 1], [1, 2], [0, 1], [-1, 2], [-2, 1], [1, 1]])
            ops.append([w] + f)
        else:
            ops.append([w])
    return fix_coords(rng, ops)


def fix_coords(rng, ops):
    """Resolves positions ('?') and drops scalings that leave the quarter lattice."""
    cs, out = [], []  # (id, kind, pos)
    legal = lambda ids: 0 not in ids and len(set(ids)) == len(ids)
    q = lambda p: tuple(4 * v for v in p)
    kd = lambda k: "R" if k == "R" else "I"
    at = lambda k, p: [c for c in cs if c[1] == k and c[2] == q(p)]
    for op in ops:
        w = op[0]
        mx = max([c[0] for c in cs] + [0])
        if w in ("addPos", "addPosDef"):
            if w == "addPos" and op[3] or not at(op[1], op[2]):
                cs = cs + [(mx + 1, op[1], q(op[2]))]
        elif w == "addPosV":
            ps = [p for p in op[2] if op[3] or not at(op[1], p)]
            cs = cs + [(mx + 1 + i, op[1], q(p)) for i, p in enumerate(ps)]
        elif w == "construct":
            cs = [(1 + i, op[1], q(p)) for i, p in enumerate(op[2])]
        elif w in ("add", "assignRaw"):
            base = cs if w == "add" else []
            if legal([c[0] for c in base] + [x[1] for x in op[1]]):
                cs = base + [(x[1], kd(x[0]), q(x[2])) for x in op[1]]
        elif w == "remove":
            if not cs:
                continue
            l = [rng.randint(1, len(cs)) for _ in range(rng.randint(1, 3))]
            op = [w, l]
            cs = [c for i, c in enumerate(cs) if i + 1 not in l]
        elif w == "set":
            if not cs:
                continue
            i, x = rng.randint(1, len(cs)), [rng.choice("RILC"), rng.randint(0, 9), [rng.randint(-1, 1), 0, 0]]
            op = [w, i, x]
            new = cs[:i - 1] + [(x[1], kd(x[0]), q(x[2]))] + cs[i:]
            if legal([c[0] for c in new]):
                cs = new
        elif w == "removeId":
            cs = [c for c in cs if c[0] not in op[1]]
        elif w == "scale":
            f = lambda v: v * op[1] // op[2]
            if any(c[1] == "R" and any(v * op[1] % op[2] or abs(v * op[1] / op[2]) > 4000 for v in c[2]) for c in cs):
                continue
            cs = [(c[0], c[1], tuple(f(v) for v in c[2]) if c[1] == "R" else c[2]) for c in cs]
        elif w == "clear":
            cs = []
        out.append(op)
    return out


ETY = {"Node": 1, "Line": 2, "Poly": 0, "Tri3": 3, "Tri6": 6, "Qua4": 4, "Tet4": 4, "Tet10": 10, "Hex8": 8}


def elements(rng, nops=25):
    kind = rng.choice("RRIM")
    ops, es = [["kind", kind]], []   # mirror: (id, ty, rk, mat)

    def push():
        rk = kind if kind != "M" else rng.choice("RI")
        ty = rng.choice(["Node", "Line", "Line", "Poly", "Qua4", "Hex8"] + (["Tri3", "Tri3", "Tet4", "Tri6"] if rk == "R" else []))
        n = ETY[ty] or rng.randint(2, 5)
        if ty == "Tet4":
            cs = rng.choice([[1, 2, 4, 7], [8, 3, 5, 12], [1, 5, 9, 10]])
        elif ty in ("Line", "Poly") and rng.random() < .2:
            cs = [rng.randint(1, 12) for _ in range(n)]
        else:
            cs = rng.sample(range(1, 13), n)
        return ["push", ty, rk, cs, rng.randint(0, 3), rng.randint(0, 3)]

    def note(op):
        mx = max([e[0] for e in es] + [0])
        es.append([mx + 1, op[1], op[2], op[5], len(op[3])])
    for _ in range(nops):
        w = rng.choice(["push"] * 8 + ["pushN", "mats", "layers", "inside", "inside", "index", "closest", "closest", "lexi",
                                       "lexi", "eq", "isCoord", "setModelAll", "setLayerAll", "setModel", "setModel", "setLayer",
                                       "removeMat", "removeMats", "removeIds", "setV", "copyGroup"])
        n = len(es)
        sub = lambda a, b: [rng.randint(a, b) for _ in range(rng.randint(0, 3))]
        if w == "push":
            ops.append(push())
            note(ops[-1])
        elif w == "pushN":
            l = [push() for _ in range(rng.randint(1, 3))]
            ops.append([w, l])
            for o in l:
                note(o)
        elif w in ("mats", "layers"):
            ops.append([w, sub(0, 4)])
        elif w == "inside":
            a = [rng.randint(-1, 4) for _ in range(3)]
            ops.append([w, a, [x + rng.randint(0, 5) for x in a]])
        elif w in ("index", "copyGroup"):
            ops.append([w])
        elif w == "closest":
            ops.append([w, [rng.randint(-3, 7) for _ in range(3)]])
        elif w == "setModelAll" or w == "setLayerAll":
            if rng.random() < .3:
                v = rng.randint(0, 3)
                ops.append([w, v])
                if w == "setModelAll":
                    for e in es:
                        e[3] = v
        elif w in ("setModel", "setLayer"):
            i, v = (rng.choice(es)[0] if n and rng.random() < .8 else rng.randint(0, 9)), rng.randint(0, 3)
            ops.append([w, i, v])
            for e in es:
                if w == "setModel" and e[0] == i:
                    e[3] = v
        elif w in ("removeMat", "removeMats"):
            l = sub(0, 3) if w == "removeMats" else [rng.randint(0, 3)]
            ops.append([w, l if w == "removeMats" else l[0]])
            es = [e for e in es if e[3] not in l]
        elif w == "removeIds":
            l = sub(1, 9)
            ops.append([w, l])
            es = [e for e in es if e[0] not in l]
        elif n:
            i = rng.randint(1, n)
            if w == "lexi":
                ops.append([w, i])
            elif w == "isCoord":
                ops.append([w, i, rng.randint(1, 12)])
            elif w == "setV" and es[i - 1][1] not in ("Tet4",):
                ops.append([w, i, rng.randint(1, es[i - 1][4]), rng.randint(1, 12)])
            elif w == "eq":
                c = rng.choice(["layer", "mat", "id", "coord", "other"])
                a = {"layer": rng.randint(0, 3), "mat": rng.randint(0, 3), "id": rng.randint(1, 9), "coord": rng.randint(1, 12),
                     "other": rng.randint(1, n)}[c]
                ops.append([w, i, c, a])
    return ops
