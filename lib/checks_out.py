"""Paths and exported files (P25 to P27)."""
import os, shutil, tempfile
import vlib
from registry import check, mc_cfg, trace_cfg, numbered
from checks_mesh import gen_data

L = list


def gen_paths(rng):
    names = rng.sample(["a", "b", "ab", "a b", "a.b", ".a", "-a", "*", "it's", "$x", "b;c", "a.b.c", "b.txt", "-r"], 3)
    ops = []

    def path(slash=.15):
        k = rng.choice([1, 1, 1, 2, 2, 3])
        c = [rng.choice(names) for _ in range(k)]
        for _ in range(rng.choice([0, 0, 0, 0, 1])):
            i = rng.randint(0, len(c))
            c[i:i] = rng.choice([["."], [rng.choice(names), ".."], [""] if i > 0 else ["."]])
        p = "/".join(c)
        if rng.random() < .4:
            p = "@/" + p
        return L(p + ("/" if rng.random() < slash else ""))

    def plain():
        return L(rng.choice(["", "", "@/"]) + "/".join(rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))))
    a, b = rng.sample(names, 2)
    for c in rng.sample([a, b, a + "/" + b, a + "/" + a, a + "/" + b + "/" + b], rng.randint(1, 5)):
        ops.append(["makeDir", L(c)])
    for _ in range(rng.randint(5, 25)):
        k = rng.random()
        if k < .25:
            ops.append(["makeDir", path()])
        elif k < .37:
            ops.append(["touch", plain(), rng.choice(["f", "f", "x"])])
        elif k < .45:
            ops.append(["write", path(.05), rng.choice(["", "new", "text", "more text"])])
        elif k < .52:
            ops.append(["rmDir", path()])
        elif k < .6:
            ops.append(["cd", path()])
        elif k < .75:
            ops.append(["ask", path()])
        elif k < .8:
            ops.append(["read", path(.05)])
        elif k < .86:
            p = path(0)
            p = L("./") + p if p[0] == "-" else p  # the shell of the script would take it as its option
            ops.append(["exec", p if "/" in p else L("@/") + p, rng.choice(["", "x", "-a --b=1", "one two"])])
        elif k < .93:
            ops.append(["list", rng.choice([L("."), L("@"), path()]), L(rng.choice(["a", "b", ".b", "txt", ".txt", "", "c", ".c"]) if rng.random() < .8 else rng.choice(names))])
        elif k < .97:
            p = plain()
            q = rng.choice([path(.5), L("@/"), L("@"), p[:rng.randint(1, len(p))], plain()])
            ops.append(["relative", p, q])
        else:
            ops.append(["names", path()])
    # nothing is listed by an ending the entries "." and ".." have
    return [o for o in ops if not (o[0] == "list" and (not o[2] or o[2][-1] == "."))]


@check("P25")
def paths(run):
    exe = vlib.build(run.scratch, "paths.cpp", srcdirs=("src/core/filesystem",))
    r = run.model("PathsMC", mc_cfg("T", ' Level = %d\n Mode = "names"' % (2 if run.deep else 1), depth=1), "names", heap="8g")
    cases = r["cases"]
    run.rng.shuffle(cases)
    r = run.model("PathsMC", mc_cfg("T", ' Level = %d\n Mode = "fs"' % (2 if run.deep else 1), depth=4 if not run.deep else 4), "fs", heap="8g")
    run.rng.shuffle(r["cases"])
    run.notes["model_cases"] = len(cases) + len(r["cases"])
    cases = numbered(cases[:2500 if not run.deep else 20000], "n") + numbered(r["cases"][:3500 if not run.deep else 40000], "f") + numbered([gen_paths(run.rng) for _ in range(2500 if not run.deep else 30000)], "r")
    up = tempfile.mkdtemp(prefix="verif_paths_", dir="/tmp")
    try:
        os.chmod(up, 0o777)
        run.conform(exe, "PathsTrace", trace_cfg("T"), cases, env=dict(os.environ, SEMBA_SCRATCH=up))
    finally:
        shutil.rmtree(up, ignore_errors=True)


def gen_export(rng, kind):
    """A data set, some editions and its export in between and at the end."""
    while True:
        q = gen_data(rng, rng.randint(4, 16))
        at = [k for k, o in enumerate(q) if o[0] == "build" and o[1] == 0]
        if at and q[at[0]][2] and q[at[0]][3]:
            break
    ops = [q[at[0]]]
    b = ops[0]
    for o in q[at[0] + 1:]:
        if o[1] == 0:
            if o[0] in ("build", "copy", "clone", "assign", "drop"):
                break
            ops.append(o)
    S = b[2][0] == "S"
    odd = ["a/b", "p&q", "x<y>", "two words", "Grid", "PEC", "../up", "c:d", "m.n"] + (['say "so"', "it's"] if kind == "vtk" else [])
    for o in ops:
        if o[0] == "matAdd" and rng.random() < .3:
            o[3] = rng.choice(odd)
        if o[0] == "outName":
            o[3] = rng.choice(odd)
    for l in [m for m in b[3][0]] + [m for m in b[2][4]] + [o for o in (b[5][0] if b[5] else [])]:
        if rng.random() < .25:
            l[1] = rng.choice([t for t in odd if l in b[3][0] or " " not in t])
    if kind == "vtk" and rng.random() < .5:
        # far from the origin
        far = [rng.choice([0, 256 * 1000 + 16, 256 * 30000]) for _ in range(3)]
        if S:
            b[2][1] = [[v + far[d] for v in b[2][1][d]] for d in range(3)]
        else:
            for c in b[2][2]:
                c[2] = [c[2][d] + far[d] for d in range(3)]
    if b[3][0] and rng.random() < .8:
        for e in b[2][3]:
            e[3], e[4] = rng.choice([e[3]] + [l[0] for l in b[2][4]] * 3), rng.choice([e[4]] + [m[0] for m in b[3][0]] * 3)
    out = [b]
    ex = lambda: [kind, 0, rng.choice(["case", "a case", "c.d", "sub.d/x", "sub.d/x.y"])]
    for o in ops[1:]:
        if S and rng.random() < .3:
            out.append(["bound", 0, rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 3)])
        if rng.random() < .25:
            out.append(["factor", 0] + rng.choice([[2, 1], [1, 4], [0, 1], [1, 1], [8, 1]]))
        if rng.random() < .25:
            out.append(ex())
        out.append(o)
    for _ in range(rng.randint(0, 6) if S else 0):
        out.append(["bound", 0, rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 3)])
    if rng.random() < .4:
        out.append(["factor", 0] + rng.choice([[2, 1], [1, 4], [0, 1], [1, 1]]))
    return out + [ex()] + ([ex()] if rng.random() < .3 else [])


def exports(run, kind, srcdir):
    exe = vlib.build(run.scratch, "exports.cpp", srcdirs=("src/core", "src/exporter", "external/gidpost"), extra_inc=("-I" + os.path.join(vlib.REPO, "external/gidpost"),))
    r = run.model("ExportsMC", mc_cfg("X", ' Level = %d\n Mode = "x"' % (2 if run.deep else 1), depth=3 if not run.deep else 4), "x", heap="8g")
    other = "gid" if kind == "vtk" else "vtk"
    cases = [c for c in r["cases"] if c[-1][0] == kind and all(o[0] != other for o in c)]
    run.notes["model_cases"] = len(cases)
    run.rng.shuffle(cases)
    # those with several groups, and any
    cases = numbered(cases[:2500 if not run.deep else 30000], "x") + numbered([gen_export(run.rng, kind) for _ in range(2000 if not run.deep else 25000)], "r")
    run.conform(exe, "ExportsTrace", trace_cfg("X"), cases)


@check("P26")
def vtk(run):
    exports(run, "vtk", "src/exporter/vtk")


@check("P27")
def gid(run):
    exports(run, "gid", "src/exporter/gid")
