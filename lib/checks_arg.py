"""Settings, arguments and options (P19 to P23)."""
import vlib
from registry import check, mc_cfg, trace_cfg, numbered

NAMES = ["a", "b", "c", "d", "e"]


class Tree:
    """Mirrors the shape of a tree, only to generate operations that address something."""

    def __init__(self):
        self.v = [["n"], ["n"]]

    def paths(self, v):
        out = []

        def walk(t, p):
            out.append(p)
            if len(p) < 4:
                if t[0] == "d":
                    for n, k in t[1]:
                        walk(k, p + [n])
                elif t[0] == "a":
                    for i, k in enumerate(t[1][:9]):
                        walk(k, p + ["#%d" % i])
        walk(self.v[v], [])
        return out

    def get(self, v, p):
        t = self.v[v]
        for s in p:
            t = t[1][int(s[1:])] if s[0] == "#" else dict(map(tuple, t[1]))[s]
            if isinstance(t, list) and s[0] == "#" and len(t) == 2 and isinstance(t[0], str) and t[0] not in ("n", "s", "a", "d"):
                t = t[1]
        return t


def copy(t):
    import json
    return json.loads(json.dumps(t))


def merge(a, b):
    if a[0] == "n":
        return copy(b)
    if b[0] == "n":
        return copy(a)
    if a[0] == "d" and b[0] == "d":
        bn = {n: k for n, k in b[1]}
        an = {n for n, _ in a[1]}
        return ["d", [[n, merge(k, bn[n]) if n in bn else copy(k)] for n, k in a[1]] + [[n, copy(k)] for n, k in b[1] if n not in an]]
    return copy(a) if a[0] == "d" else copy(b)


def count(t):
    return 1 + (sum(count(k[1] if t[0] == "d" else k) for k in t[1]) if t[0] in "da" else 0)


def gen_settings(rng):
    m = Tree()
    ops = []
    word = lambda: rng.choice([["v"], ["1"], ["x y"], ["u", "w"], ["0.5", "2", "z"]])
    for _ in range(rng.randint(6, 30)):
        v = rng.randint(0, 1)
        p = rng.choice(m.paths(v))
        t = m.get(v, p)
        isd = lambda x: x if x[0] == "d" else ["d", []]
        isa = lambda x: x if x[0] == "a" else ["a", []]

        def put(x):
            if not p:
                m.v[v] = x
            else:
                q = m.get(v, p[:-1])
                if q[0] == "a":
                    q[1][int(p[-1][1:])] = x
                else:
                    for e in q[1]:
                        if e[0] == p[-1]:
                            e[1] = x

        def member(n, x):
            d = isd(copy(t))
            for e in d[1]:
                if e[0] == n:
                    e[1] = x
                    return put(d)
            d[1].append([n, x])
            put(d)
        k = rng.random()
        n = rng.choice(NAMES)
        w = rng.randint(0, 1)
        q = rng.choice(m.paths(w))
        src = copy(m.get(w, q))
        if k < .30 or (k < .5 and m.v[v][0] == "n"):
            x = word()
            ops.append(["fill", v + 1, p, n, x])
            member(n, ["s", x])
        elif k < .36:
            ops.append(["touch", v + 1, p, n])
            if t[0] != "d" or n not in [e[0] for e in t[1]]:
                member(n, ["n"])
        elif k < .42:
            x = word()
            ops.append(["words", v + 1, p, x])
            put(["s", x])
        elif k < .48:
            x = word()
            ops.append(["push", v + 1, p, x])
            put(["a", copy(isa(t)[1]) + [["s", x]]])
        elif k < .52:
            o = rng.choice(["null", "object", "array", "reset"])
            ops.append([o, v + 1, p])
            put({"null": lambda: ["n"], "object": lambda: isd(copy(t)), "array": lambda: isa(copy(t)), "reset": lambda: copy(t)}[o]())
        elif k < .68:
            names = [e[0] for e in t[1]] if t[0] == "d" and t[1] else [n]
            n = rng.choice(names)
            ops.append(["erase", v + 1, p, n])
            if t[0] == "d":
                put(["d", [e for e in copy(t)[1] if e[0] != n or e[1][0] == "n"]])
        elif k < .72:
            if t[0] in "ad" and t[1]:
                i = rng.randint(1, len(t[1]))
                ops.append(["eraseAt", v + 1, p, i])
                if t[0] == "a":
                    put(["a", [e for j, e in enumerate(copy(t)[1]) if j != i - 1]])
        elif k < .76:
            ops.append(["ask", v + 1, p, n])
        elif count(m.v[0]) + count(m.v[1]) > 40:
            continue
        elif k < .82:
            ops.append(["member", v + 1, p, w + 1, q, n])
            member(n, src)
        elif k < .85:
            ops.append(["value", v + 1, p, w + 1, q])
            put(["a", copy(isa(t)[1]) + [src]])
        elif k < .89:
            ops.append(["assign", v + 1, p, w + 1, q])
            put(src)
        elif k < .91:
            sub = [x for x in m.paths(v) if len(x) > len(p) and x[:len(p)] == p]
            if sub:
                q = rng.choice(sub)
                src = copy(m.get(v, q))
                ops.append(["take", v + 1, p, v + 1, q])
                put(src)
        elif k < .97:
            ops.append(["merge", v + 1, p, w + 1, q])
            put(merge(copy(t), src))
        else:
            ops.append(["sum", v + 1, [], 2, []])
            m.v[v] = merge(m.v[0], m.v[1])
    return ops or [["null", 1, []]]


@check("P21")
def settings(run):
    exe = vlib.build(run.scratch, "settings.cpp", srcdirs=())
    r = run.model("SettingsMC", mc_cfg("O", " Level = %d" % (2 if run.deep else 1), depth=2), "settings", heap="8g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    cases = numbered(cases[:6000 if not run.deep else 80000], "s") + numbered([gen_settings(run.rng) for _ in range(2500 if not run.deep else 40000)], "r")
    run.conform(exe, "SettingsTrace", trace_cfg("O"), cases)


def gen_readings(rng):
    ops = []
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        num = lambda n: "".join(rng.choice("0123456789") for _ in range(rng.randint(0, n)))
        word = lambda: rng.choice([
            lambda: rng.choice(["", "-", "+"]) + num(6) + rng.choice(["", ".", "." + num(6)]) + rng.choice(["", "", "e" + rng.choice(["", "-", "+"]) + num(2), "E1"]),
            lambda: "".join(rng.choice("0123459.e+-E x ab") for _ in range(rng.randint(0, 7))),
            lambda: rng.choice(["0", "1", "12", "true", "abc", "a b", "12abc", "1 2 3", " 4", "5 ", "007", "-0", "+1"]),
            lambda: str(rng.randint(0, 4294967296))])()
        if k < .75:
            ops.append(["words", [list(word()) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]])
        elif k < .8:
            ops.append(["int", rng.randint(-2147483647, 2147483647)])
        elif k < .83:
            ops.append(["bool", rng.random() < .5])
        elif k < .9:
            ops.append(["real", rng.choice([-1, 1]) * rng.randint(0, 10 ** rng.randint(1, 9)), rng.randint(-20, 20)])
        elif k < .94:
            ops.append(["pair", rng.randint(-99, 99), list(rng.choice(["patata", "a b", "1", "x9"]))])
        else:
            ops.append([rng.choice(["null", "object", "array"])])
    return ops


@check("P22")
def readings(run):
    exe = vlib.build(run.scratch, "readings.cpp", srcdirs=())
    r = run.model("ReadingsMC", mc_cfg("R", " Level = %d" % (2 if run.deep else 1), depth=1), "readings", heap="8g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    cases = numbered(cases[:6000 if not run.deep else 80000], "t") + numbered([gen_readings(run.rng) for _ in range(3000 if not run.deep else 40000)], "r")
    run.conform(exe, "ReadingsTrace", trace_cfg("R"), cases)


L = list
KINDS = ["opt", "opt", "opt", "mopt", "switch", "mswitch", "pos", "pos"]
TYPES = [["i"], ["s"], ["r"], ["v"], ["i", "s"], ["i", "i"], ["s", "i"], ["v", "s"], ["i", "r", "i"], ["b"]]
SHORTS = ["", "a", "b", "c", "d", "v", "A", "1"]
LONGS = ["", "aa", "ab", "aab", "al", "alpha", "beta", "alt", "x-y", "a1", "be", "verbose"]


def gen_args(rng, lines):
    """A parser and command lines for it; lines=0: definitions only."""
    ops, groups, opts = [], [(0, False)], []
    names = ["x", "y", "zz", "In", "Out", "n1", "Mode", "g", "deep", "w", "k", "qq"]
    n = rng.randint(2, 7) if lines else rng.randint(4, 14)
    for _ in range(n):
        k = rng.random()
        g = rng.choice([i for i in range(len(groups))])
        plain = [i for i in range(len(groups)) if not groups[i][1]]
        if k < .12:
            g = rng.choice(plain)
            nm = rng.choice(names if not lines else ["grp%d" % len(groups)])
            ops.append(["group", g + 1, nm])
            groups.append((g, False))
        elif k < .24:
            g = rng.choice(plain)
            ops.append(["exclusive", g + 1, rng.random() < .4])
            groups.append((g, True))
        elif k < .26 and not lines:
            ops.append(["none", g + 1, rng.random() < .5])
        else:
            kind = rng.choice(KINDS if not lines or rng.random() < .8 else KINDS[:6])
            sh, lg = rng.choice(SHORTS), rng.choice(LONGS)
            nm = rng.choice(names)
            if kind != "pos" and rng.random() < .2:
                nm = lg or nm
            ty = [] if kind in ("switch", "mswitch") else rng.choice(TYPES)
            words = lambda: [{"i": lambda: rng.choice(["5", "-3", "10"]), "r": lambda: rng.choice(["0.5", "2"]), "s": lambda: rng.choice(["foo", "bar", "5"]), "b": lambda: rng.choice("01"), "v": lambda: "7"}[t]() for t in ty]
            de = []
            if rng.random() < .3:
                de = {"switch": lambda: [rng.choice("01")], "mswitch": lambda: [str(rng.randint(0, 12))]}.get(kind, words)()
            ch = [[w if rng.random() < .8 else "*" for w in words()] for _ in range(rng.randint(1, 3))] if ty and rng.random() < .2 else []
            if kind == "pos":
                sh = lg = ""
            req = kind != "pos" and rng.random() < .06
            ops.append(["arg", g + 1, kind, nm, sh, L(lg), ty, req, de, ch])
            if kind != "pos":
                opts.append((sh, lg, kind, ty, ch))
    for _ in range(lines):
        line = []
        val = lambda: rng.choice(["5", "-5", "12", "0.5", "foo", "bar", "5 6", "5x", "7-7", "1 1", "", "1", "0", "x", "-.5", "=", "a=b"])
        fit = lambda t: {"i": lambda: rng.choice(["5", "-3", "10", "007", "5 6", "12x", "7-7", "1 1"] if rng.random() < .4 else ["5", "-3", "10"]), "r": lambda: rng.choice(["0.5", "2", "-1e3", ".25", "3.5z"]), "s": lambda: rng.choice(["foo", "bar", "5", "a=b", "a b"]),
                         "b": lambda: rng.choice("01"), "v": lambda: "7"}[t]()
        todo = [o for o in opts if o[0].isalpha() or o[1]]
        rng.shuffle(todo)
        todo = todo[:rng.randint(0, len(todo))]
        if opts and rng.random() < .35:
            todo.append(rng.choice([o for o in opts if o[2] in ("mopt", "mswitch")] or opts))
        if not todo or rng.random() < .25:
            todo.insert(rng.randint(0, len(todo)), (rng.choice("xqABz"), rng.choice(["zz", "other", "alp", "b1", "ver"]), "opt", ["s"], []))
        for sh, lg, kind, ty, ch in todo if rng.random() < .97 else []:
            vals = [] if not ty else rng.choice(ch) if ch and rng.random() < .8 else [fit(t) for t in ty] if rng.random() < .93 else [val() for _ in range(rng.randint(0, 2))]
            vals = [v if v != "*" else "bar" for v in vals]
            if sh and (not lg or rng.random() < .5):
                if vals and rng.random() < .35:
                    line += ["-" + sh + vals[0]] + vals[1:]
                elif line and line[-1][:1] == "-" and line[-1][1:2].isalpha() and rng.random() < .5:
                    line[-1] += sh
                    line += vals
                else:
                    line += ["-" + sh] + vals
            else:
                l = lg if rng.random() < .75 else lg[:rng.randint(2, max(2, len(lg)))]
                if vals and rng.random() < .4:
                    line += ["--" + l + "=" + vals[0]] + vals[1:]
                else:
                    line += ["--" + l] + vals
            if rng.random() < .15:
                line.append(val())
        npos = len([o for o in ops if o[0] == "arg" and o[2] == "pos"])
        some = [fit(t) for o in ops if o[0] == "arg" and o[2] == "pos" for t in o[6]] if rng.random() < .8 else [val() for _ in range(rng.randint(0, 3))]
        k = rng.random()
        line = some + line if k < .5 else line + ["--"] + some if k < .8 else line + some
        ops.append(["parse", [L(w) for w in line], rng.random() < .4])
    return ops


def run_args(run, mode, lines):
    exe = vlib.build(run.scratch, "args.cpp", srcdirs=("src/core/argument",))
    lvl = 2 if run.deep else 1
    r = run.model("ArgsMC", mc_cfg("U", ' Level = %d\n Mode = "%s"' % (lvl, mode), depth=(3 if mode == "define" else 2)), mode, heap="8g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    return exe, numbered(cases[:5000 if not run.deep else 80000], "s")


@check("P19")
def definitions(run):
    exe, cases = run_args(run, "define", 0)
    run.conform(exe, "ArgsTrace", trace_cfg("U"), cases + numbered([gen_args(run.rng, 0) for _ in range(2500 if not run.deep else 40000)], "r"))


@check("P20")
def lines(run):
    exe, cases = run_args(run, "parse", 6)
    run.conform(exe, "ArgsTrace", trace_cfg("U"), cases + numbered([gen_args(run.rng, 8) for _ in range(1200 if not run.deep else 20000)], "r"))


FLAGS = ["contourRefinement", "snap", "unwantedConnectionsInfo", "structuredCellsInfo", "vtkExport", "postmshExport", "postsmbExport", "slantedWires"]
REALS = ["forbiddenLength", "geometryScalingFactor", "slantedThreshold"]
BOUNDS = [a + b + "Bound" for b in "XYZ" for a in ("lower", "upper")]
SOLVER = {"runSimulation": "b", "finalTime": "t", "numberOfTimeSteps": "i", "timeStep": "t", "cfl": "x", "defaultSamplingPeriod": "x", "forceRestarting": "b", "resumeSimulation": "b", "flush": "x", "additionalArguments": "s"}
MESHER = dict([(f, "b") for f in FLAGS] + [(f, "x") for f in REALS] + [(f, "s") for f in BOUNDS] + [("mesher", "s"), ("mode", "s"), ("subgridPoints", "i")])


def gen_options(rng):
    ops = []

    def setting(k, kinds, bad):
        t = kinds[k]
        if rng.random() < bad:
            return [k, "w", rng.choice(["array", "object", "so so", "1 2 3", "half"])] if k != "additionalArguments" else [k, "s", "x"]
        if t == "b":
            return [k, t, rng.random() < .5]
        if t == "t":
            return [k, t, rng.choice([0, rng.randint(1, 20), rng.randint(1, 3000)])]
        if t == "i":
            return [k, t, rng.choice([0, rng.randint(1, 20), rng.randint(0, 5000)])]
        if t == "x":
            return [k, t, rng.choice(["0.8", "0", "0.5", "1", "2.25", "100", "0.125", "17", "0.95"])]
        if k == "mesher":
            return [k, t, rng.choice(["AMesher", "DMesher", "HMesher"] * 4 + (["HMesher ", "dmesher", ""] if bad else []))]
        if k == "mode":
            return [k, t, rng.choice(["Structured", "Relaxed", "Slanted", "Conformal"] * 4 + (["slanted", "Mode"] if bad else []))]
        if k in BOUNDS:
            return [k, t, rng.choice(["PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"] * 3 + (["MUR", "pml", "SMA"] if bad else []))]
        return [k, t, rng.choice(["", "-a", "-x 1 -y 2", "--long"])]
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if k < .35:
            ks = rng.sample(list(SOLVER), rng.randint(0, len(SOLVER)))
            ops.append(["solver", [setting(x, SOLVER, .02) for x in ks] + ([["solverName", "s", "other"]] if rng.random() < .2 else [])])
            rng.shuffle(ops[-1][1])
        elif k < .65:
            ks = rng.sample(list(MESHER), rng.choice([0, 1, 2, 3, 5, 8, 15, len(MESHER)]))
            ops.append(["mesher", [setting(x, MESHER, .01) for x in ks] + ([["gridSteps", "s", "3"]] if rng.random() < .2 else [])])
            rng.shuffle(ops[-1][1])
        elif k < .75:
            ops.append(["putSolver", setting(rng.choice(list(SOLVER)), SOLVER, 0)])
        elif k < .87:
            x = rng.choice(list(MESHER) + ["gridStep", "outputName"])
            ops.append(["putMesher", [x, "v", [rng.choice([0, 0, 1, 3]) for _ in range(3)]] if x == "gridStep" else [x, "s", rng.choice(["", "out"])] if x == "outputName" else setting(x, MESHER, 0)])
        elif k < .93:
            ops.append(["copy"])
        else:
            w = []
            for _ in range(rng.randint(0, 4)):
                w += rng.choice([["--vtkexport"], ["--vtk"], ["--mode", rng.choice(["Slanted", "Relaxed", "Conformal", "other"])], ["--mode=Structured"], ["--gridstep", "0.5", "1", "2e-3"], ["--grid=1 2 3"], ["--gridstep", "1"], ["--length", "0.25"], ["--len=1"], ["file"], ["-v"], ["--other=1"], ["--"]])
            ops.append(["line", [L(x) for x in w]])
    return ops


@check("P23")
def options(run):
    exe = vlib.build(run.scratch, "options.cpp", srcdirs=("src/core", "src/solver", "src/mesher"))
    r = run.model("OptionsMC", mc_cfg("H", " Level = %d" % (2 if run.deep else 1), depth=2 if not run.deep else 3), "options", heap="8g")
    cases = r["cases"]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    cases = numbered(cases[:5000 if not run.deep else 60000], "s") + numbered([gen_options(run.rng) for _ in range(3000 if not run.deep else 40000)], "r")
    run.conform(exe, "OptionsTrace", trace_cfg("H"), cases)


WORDS = ["a", "the", "mesh", "file", "writes", "unless", "elements", "everything-else", "is", "of", "${PROG}", "${DEFAULT}", "(${CHOICES})", "one", "number", "x${DEFAULT}y", "${PROG}.cfg"]


def gen_helps(rng):
    """A parser with its texts, and its usage line or help."""
    gs, as_ = [[0, "", "", False, False]], []
    text = lambda n: " ".join(rng.choice(WORDS + ["w" * rng.randint(1, 12)]) for _ in range(rng.randint(1, n)))
    plain = lambda n: " ".join("w" * rng.randint(1, 12) for _ in range(rng.randint(1, n)))
    names = ["%s%s" % (a, b) for a in ("in", "Out", "deep_level", "nx", "mode") for b in ("", "put", "-file", "2")]
    rng.shuffle(names)
    letters = list("abcdefghijklmnopqrstuvwxyzABC")
    rng.shuffle(letters)
    for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
        up = rng.choice([i + 1 for i, g in enumerate(gs) if not g[3]])
        if rng.random() < .4:
            gs.append([up, "", "", True, rng.random() < .5])
        else:
            gs.append([up, "Group %d" % len(gs) if rng.random() < .8 else plain(16), plain(25) if rng.random() < .6 else "", False, False])
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        k = rng.choice(["pos", "mpos", "opt", "opt", "mopt", "switch", "mswitch"])
        nm, sh, lg = names.pop(), "", ""
        if k not in ("pos", "mpos"):
            sh, lg = rng.choice([(letters.pop(), nm), ("", nm), (letters.pop(), "")])
        de = [] if rng.random() < .5 or k in ("switch", "mswitch") else [plain(1) for _ in range(rng.randint(1, 4))]
        ch = [] if k in ("switch", "mswitch") or rng.random() < .5 else [[plain(1) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 4))]
        as_.append([rng.randint(1, len(gs)), k, nm, sh, lg, rng.random() < .3, rng.choice(["", text(5), text(40)]),
                    [plain(1).upper() for _ in range(rng.choice([0, 0, 1, 2]))] if k not in ("switch", "mswitch") else [], de, ch])
    return [[rng.choice(["usage", "help", "help"]), rng.choice(["p", "opensemba", "a-rather-long-name-for-a-program"]), text(30) if rng.random() < .15 else "",
             rng.choice(["", text(6), text(40)]), rng.choice(["", text(6), text(40)]), gs, as_]]


@check("P39")
def p39(run):
    exe = vlib.build(run.scratch, "helps.cpp")
    r = run.model("HelpsMC", mc_cfg("H", " Level = %d" % (2 if run.deep else 1), depth=1), "x", heap="6g")
    cases = numbered(r["cases"], "x") + numbered([gen_helps(run.rng) for _ in range(1500 if not run.deep else 20000)], "r")
    run.notes["model_cases"] = len(r["cases"])
    run.conform(exe, "HelpsTrace", trace_cfg("H"), cases)
