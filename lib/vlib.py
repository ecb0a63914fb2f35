"""Common machinery of the checks: build the conformance driver from /repo's
working tree, explore the TLA+ specification with TLC, replay cases in the real
code and validate the recorded traces against the specification with TLC."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not decide (build, tool or model failure)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -999, out.decode("utf-8", "replace")


def find_sources(dirs):
    out = []
    for d in dirs:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith((".cpp", ".c", ".cc")):
                    out.append(os.path.join(root, f))
    return sorted(out)


def build(scratch, harness, srcdirs=("src/core",), extra_inc=(), flags=(), srcfilter=None):
    """Compiles the library sources of /repo and the driver; returns the binary."""
    srcs = find_sources(srcdirs)
    if srcfilter:
        srcs = [s for s in srcs if srcfilter(s)]
    objdir = os.path.join(scratch, "obj")
    os.makedirs(objdir, exist_ok=True)
    inc = ["external", "external/json", "external/gidpost/source", "src", "src/core"]
    base = ["-O0", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", '-DOPENSEMBA_VERSION="0.14"']
    base += ["-I" + os.path.join(REPO, i) for i in inc if os.path.isdir(os.path.join(REPO, i))]
    base += list(extra_inc) + list(flags) + ["-I" + os.path.join(VERIF, "harness")]
    cache = os.environ.get("VERIF_OBJCACHE")  # development only: reuse an unchanged build
    if cache:
        h = hashlib.md5(repr((harness, srcdirs, flags)).encode())
        for d in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
            for root, _, files in sorted(os.walk(d)):
                for f in sorted(files):
                    if d == os.path.join(REPO, "src") or f in (harness, "vj.h") or f.endswith(".h"):
                        h.update(open(os.path.join(root, f), "rb").read())
        cached = os.path.join(cache, harness + "." + h.hexdigest())
        if os.path.exists(cached):
            return cached
    jobs = [os.path.join(VERIF, "harness", harness)] + srcs  # driver first: the longest

    def one(src):
        obj = os.path.join(objdir, hashlib.md5(src.encode()).hexdigest() + ".o")
        if src.endswith(".c"):
            cmd = ["gcc", "-c", src, "-o", obj] + base
        else:
            cmd = ["g++", "-std=c++14", "-c", src, "-o", obj] + base
        rc, out = sh(cmd, timeout=600)
        if rc != 0:
            raise CheckError("compilation of %s failed:\n%s" % (src, out[-3000:]))
        return obj
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(scratch, "driver")
    rc, out = sh(["g++", "-o", exe] + list(flags) + objs + ["-lz", "-lm", "-lpthread"], timeout=600)
    if rc != 0:
        raise CheckError("link failed:\n" + out[-3000:])
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(exe, cached)
    return exe


def tlc(scratch, module, cfgtext, tag, workers=1, env=None, timeout=800, extra=(), heap="2g"):
    """Runs TLC on specs/<module>.tla; returns (rc, output)."""
    d = os.path.join(scratch, "tlc_" + tag)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "specs")):
        if f.endswith(".tla"):
            dst = os.path.join(d, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(VERIF, "specs", f), dst)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as fh:
        fh.write(cfgtext)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
    return sh(cmd, timeout=timeout, env=env, cwd=d)


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def trim(out, skip):
    noise = (skip, "Parsing file", "Semantic processing", "Linting of")
    return "\n".join(x for x in out.splitlines() if not x.startswith(noise))[-4000:]


def unq(line):
    """A string printed by PrintT, unquoted."""
    return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")


def explore(scratch, module, cfgtext, tag, timeout=800, workers=1, heap="4g", extra=()):
    """Exhaustive TLC run of a Machine module. Returns dict(states, transitions, cases)."""
    rc, out = tlc(scratch, module, cfgtext, tag, workers=workers, timeout=timeout, heap=heap, extra=extra)
    cases = []
    for line in out.splitlines():
        if line.startswith('"CASE '):
            cases.append(json.loads(unq(line)[5:]))
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        tail = trim(out, '"CASE ')
        raise CheckError("TLC on %s (%s) failed rc=%s:\n%s" % (module, tag, rc, tail))
    gen, dist = tlc_stats(out)
    return {"states": dist, "transitions": gen, "cases": cases, "out": out}


def run_driver(exe, scratch, cases, tag, timeout=600, env=None):
    """cases: list of (name, ops). Returns (events per case name, crashes)."""
    todo = list(cases)
    per = {}
    crashes = {}
    rnd = 0
    while todo:
        rnd += 1
        inp = os.path.join(scratch, "cases_%s_%d.ndjson" % (tag, rnd))
        outp = os.path.join(scratch, "trace_%s_%d.ndjson" % (tag, rnd))
        with open(inp, "w") as fh:
            for n, ops in todo:
                fh.write(json.dumps({"case": n, "ops": ops}, separators=(",", ":")) + "\n")
        work = os.path.join(scratch, "work_%s_%d" % (tag, rnd))
        os.makedirs(work, exist_ok=True)
        # freed and fresh heap blocks hold a pattern: stale or unset values show
        rc, out = sh([exe, inp, outp], timeout=timeout, env=dict(env or os.environ, MALLOC_PERTURB_="165"), cwd=work)
        shutil.rmtree(work, ignore_errors=True)
        cur = None
        order = []
        if os.path.exists(outp):
            with open(outp, errors="replace") as fh:
                for line in fh:
                    try:
                        e = json.loads(line)
                    except ValueError:
                        continue
                    if e["op"][0] == "case":
                        cur = e["op"][1]
                        order.append(cur)
                        per[cur] = []
                    else:
                        per[cur].append(line.rstrip("\n"))
        if rc == 0:
            break
        if cur is None:
            raise CheckError("driver failed before the first case: rc=%s\n%s" % (rc, out[-2000:]))
        crashes[cur] = "rc=%s" % rc
        if len(crashes) > 40:
            break
        idx = [n for n, _ in todo].index(cur)
        per.pop(cur, None)
        todo = todo[idx + 1:]
    return per, crashes


def validate(scratch, module, cfgtext, per, tag, timeout=800, heap="2g"):
    """per: {case: [event lines]}. Returns {case: (event index, expected)} first mismatches, nstates."""
    mism, total, per = {}, 0, dict(per)
    for rnd in range(4):
        lines = []
        idx = []
        for name, evs in per.items():
            lines.append(json.dumps({"op": ["case", name], "res": 0, "obs": 0}, separators=(",", ":")))
            idx.append((name, -1))
            for k, e in enumerate(evs):
                lines.append(e)
                idx.append((name, k))
        path = os.path.join(scratch, "val_%s.ndjson" % tag)
        with open(path, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        rc, out = tlc(scratch, module, cfgtext, "val_" + tag, env={"TRACE": path}, timeout=timeout, heap=heap)
        for line in out.splitlines():
            if line.startswith('"MISMATCH '):
                s = unq(line)[9:]
                n, exp = s.split(" ", 1)
                case, k = idx[int(n) - 1]
                if case not in mism:
                    mism[case] = (k, exp)
        os.unlink(path)
        total += tlc_stats(out)[1]
        if rc == 0 and "Model checking completed. No error has been found." in out:
            return mism, total
        # An event whose value is not even of the kind the specification speaks of
        # (an answer of another shape) stops TLC there: that event is rejected.
        at = re.findall(r"^(?:/\\ )?rl = (\d+)", out, re.M)
        if rc in (-999, 0) or not at or "evaluat" not in out and "Attempted" not in out:
            raise CheckError("TLC trace validation %s (%s) failed rc=%s:\n%s" % (module, tag, rc, trim(out, '"MISMATCH ')))
        case, k = idx[int(at[-1]) - 1]
        why = [x for x in out.splitlines() if x.startswith(("Attempted", "The second argument", "The first argument", "In "))]
        log("rejected outside the domain of the specification: %s event %d: %s" % (case, k, why[:1]))
        if case not in mism:
            mism[case] = (k, "a value in the domain of the specification " + " ".join(why[:1]))
        per.pop(case)
        if not per:
            break
    return mism, total


def chunks(seq, n):
    n = max(1, n)
    out = [[] for _ in range(n)]
    for k, x in enumerate(seq):
        out[k % n].append(x)
    return [c for c in out if c]


def known_findings(prop):
    """Lines `finding: property=<id> key=<name> ops=<json> :: text`."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) ops=(.*) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return res


class Run:
    """One check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        for k in range(1, 100):
            old = os.path.join(VERIF, "replays", "%s_%d.json" % (prop, k))
            if os.path.exists(old):
                os.unlink(old)
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.rng = random.Random("%s/%s" % (prop, seed))

    @property
    def deep(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def model(self, module, cfg, tag, **kw):
        r = explore(self.scratch, module, cfg, tag, **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        return r

    def conform(self, exe, module, cfg, cases, tag="c", nchunks=None, heap="2g", env=None):
        """Replays cases in the code and validates the traces; records violations."""
        kf = known_findings(self.prop)
        kfcases = [("known:" + k, ops) for k, ops, _ in kf if ops and ops[0] and self._mine(ops, cases)]
        cases = list(cases)
        nchunks = nchunks or max(1, min(NPROC, len(cases) // 150 + 1))
        parts = chunks(cases + kfcases, nchunks)

        def job(a):
            i, part = a
            per, crashes = run_driver(exe, self.scratch, part, "%s%d" % (tag, i), env=env)
            if crashes and len(crashes) > 40:
                pass
            nev = sum(len(v) for v in per.values())
            mism, dist = validate(self.scratch, module, cfg, per, "%s%d" % (tag, i), heap=heap) if per else ({}, 0)
            return per, crashes, mism, dist, nev
        with cf.ThreadPoolExecutor(nchunks) as ex:
            res = list(ex.map(job, enumerate(parts)))
        byname = dict(cases + kfcases)
        bad = []
        sampled = {}
        for per, crashes, mism, dist, nev in res:
            self.traces += len(per) - len(mism)
            self.events += nev
            for c in mism:
                bad.append((c, mism[c][0], mism[c][1], per[c][mism[c][0]]))
            for c in crashes:
                bad.append((c, -1, "no crash", "implementation " + crashes[c]))
            sampled.update(per)
        if not self.samples:
            names = [n for n, _ in cases if n in sampled]
            for n in (names[:1] + names[-1:]):
                self.samples.append({"case": n, "events": [json.loads(x) for x in sampled[n]][:12]})
        # confirm: every reported case is replayed alone and has to fail again
        texts = {("known:" + k): t for k, _, t in kf}
        confirmed = unconfirmed = 0
        bad.sort(key=lambda b: len(byname[b[0]]))
        for case, k, exp, got in bad:
            if case in texts:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, texts[case]))
                continue
            if confirmed >= 5 or unconfirmed >= 8:
                continue
            per, crashes = run_driver(exe, self.scratch, [(case, byname[case])], tag + "re", env=env)
            if not crashes:
                mism, _ = validate(self.scratch, module, cfg, per, tag + "re", heap=heap)
                if case not in mism:
                    unconfirmed += 1
                    log("case %s: rejected once, accepted when replayed alone" % case)
                    continue
                k, exp = mism[case]
                got = per[case][k]
            confirmed += 1
            self.violations.append(self.report(case, byname[case], k, exp, got))
        if unconfirmed and not confirmed:
            # state leaking from one case to the next: replay the whole chunk once more
            self.rerun(exe, module, cfg, parts, byname, texts, tag, heap, env)
        self.notes["rejected_cases_" + tag] = len([b for b in bad if b[0] not in texts])

    def rerun(self, exe, module, cfg, parts, byname, texts, tag, heap, env):
        for i, part in enumerate(parts):
            per, crashes = run_driver(exe, self.scratch, part, "%srr%d" % (tag, i), env=env)
            mism, _ = validate(self.scratch, module, cfg, per, "%srr%d" % (tag, i), heap=heap) if per else ({}, 0)
            bad = [(c, -1, "no crash", "implementation " + crashes[c]) for c in crashes]
            bad += [(c, mism[c][0], mism[c][1], per[c][mism[c][0]]) for c in mism]
            for case, k, exp, got in bad:
                if case not in texts:
                    self.violations.append(self.report(case, [o for _, o in part] if len(part) < 50 else byname[case],
                                                       k, exp, got))
                    return
        raise CheckError("rejections were not repeated")

    def _mine(self, ops, cases):
        """A known finding belongs to a conformance run if it uses its vocabulary."""
        voc = getattr(self, "vocab", None)
        return voc is None or ops[0][0] in voc

    def report(self, case, ops, k, exp, got):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "case": case, "ops": ops, "event": k,
                       "specification_expects": exp, "implementation_did": got}, fh, indent=1)
        return path

    def finish(self, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples or ["none"]}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        return 1 if self.violations else 0
