"""Shared machinery: building the code under test, running TLC, verdicts, evidence."""
import json, os, re, subprocess, sys, tempfile, time, shutil, concurrent.futures as cf, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 4)

class Machinery(Exception):
    """something is wrong with the machinery, not with the code under test"""

class Scratch:
    def __init__(self):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))
    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def goenv():
    """the environment of /opt/vp/env.sh (Go toolchain, offline module cache)"""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
    env = dict(x.split("=", 1) for x in out.split("\0") if "=" in x)
    return env

def go_build(scr, out, pkg, overlay, race=False):
    ov = scr.path("overlay-%s.json" % os.path.basename(out))
    json.dump({"Replace": overlay}, open(ov, "w"))
    env = goenv()
    cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + [pkg]
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise Machinery("go build %s failed:\n%s" % (pkg, r.stderr[-3000:]))
    return out

def build_driver(scr):
    return go_build(scr, scr.path("driver"), "./cmd/verifdriver", {REPO + "/cmd/verifdriver/main.go": VERIF + "/driver/main.go"})

# ------------------------------------------------------------------ TLC
TLCCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
SIMST = re.compile(r"The number of states generated: (\d+)")

class Stats:
    states = 0
    transitions = 0

def tlc(scr, module, env=None, workers=1, cfg=None, extra=(), name=None, timeout=800, allow=(0,), heap=None):
    name = name or module
    md = scr.path("tlc", name, "x"); md = os.path.dirname(md)
    e = dict(os.environ); e.update(env or {})
    cfg = cfg or (module + ".cfg")
    jvm = ["-Xss16m", "-XX:+UseSerialGC", "-Xmx" + (heap or "2500m"), "-XX:TieredStopAtLevel=4"] if workers == 1 else ["-Xss16m", "-XX:+UseParallelGC", "-Xmx" + (heap or "8g")]
    cmd = ["java"] + jvm + ["-cp", TLCCP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC %s timed out" % name)
    out = r.stdout
    m = STATES.findall(out)
    if m:
        Stats.transitions += int(m[-1][0]); Stats.states += int(m[-1][1])
    else:
        m = SIMST.findall(out)
        if m: Stats.transitions += int(m[-1]); Stats.states += int(m[-1])
    if r.returncode not in allow:
        raise Machinery("TLC %s ended with %d:\n%s" % (name, r.returncode, (out[-3500:] + r.stderr[-500:])))
    return out

def printed(out, tag):
    """lines printed by PrintT("TAG|...")"""
    res, open_ = [], None
    pre = '"' + tag + "|"
    for l in out.split("\n"):               # not splitlines(): a string may hold \x1e, \u2028, ...
        if open_ is not None: l, open_ = open_ + "\n" + l, None
        if l.startswith(pre):
            try: res.append(json.loads(l, strict=False))
            except ValueError as e:
                if "Unterminated string" in str(e) and l.count("\n") < 400: open_ = l
                else: raise Machinery("cannot read what TLC printed: %r" % l[:300])
    if open_ is not None: raise Machinery("cannot read what TLC printed: %r" % open_[:300])
    return res

# ------------------------------------------------------------------ scenario generation
def gen_cats(scr, d, base, depth, simulate=0, seed=1):
    env = dict(GEN_DIALECT=d, GEN_BASE=base, GEN_DEPTH=str(depth), GEN_EMIT="all")
    extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(seed)] if simulate else []
    out = tlc(scr, "Gen", env, workers=1, extra=extra, name="gen-%s-%s-%d-%d" % (d, base, depth, simulate))
    seen, cats = set(), []
    for l in printed(out, "CAT"):
        _, n, js = l.split("|", 2)
        if js not in seen:
            seen.add(js); cats.append((int(n), json.loads(js)))
    if not cats: raise Machinery("generator produced nothing for %s %s" % (d, base))
    cats.sort(key=lambda x: (x[0], json.dumps(x[1], sort_keys=True)))
    return cats

def pmap(f, xs, chunk=64):
    """f over xs in worker processes (f: module level)"""
    if len(xs) < 200: return [f(x) for x in xs]
    with cf.ProcessPoolExecutor(NCPU) as ex:
        return list(ex.map(f, xs, chunksize=chunk))

# ------------------------------------------------------------------ driver
def _drive(args):
    binary, ops, env, timeout = args
    res, i = [], 0
    while i < len(ops):
        inp = "".join(json.dumps(o) + "\n" for o in ops[i:])
        try:
            r = subprocess.run([binary], input=inp, capture_output=True, text=True, env=env, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Machinery("driver did not end")
        lines = [json.loads(l) for l in r.stdout.splitlines() if l.strip()]
        res += lines
        i += len(lines)
        if r.returncode == 0:
            if i < len(ops): raise Machinery("driver answered %d of %d" % (i, len(ops)))
        elif r.returncode == 9: continue            # a hang was reported, go on with the rest
        else:                                        # the process died on ops[i] (fatal error)
            res.append(dict(id=ops[i]["id"], panic="fatal: " + r.stderr[-1500:], hang=False, parsed=[], steps=[]))
            i += 1
    return res

def drive(binary, ops, env=None, timeout=600, procs=NCPU):
    """runs the operations on the real code; returns id -> result"""
    e = dict(os.environ); e.update(env or {})
    chunks = [ops[k::procs] for k in range(procs)]
    out = {}
    with cf.ThreadPoolExecutor(procs) as ex:
        for res in ex.map(_drive, [(binary, c, e, timeout) for c in chunks if c]):
            for r in res: out[r["id"]] = r
    if len(out) != len(ops): raise Machinery("driver: %d results for %d operations" % (len(out), len(ops)))
    return out

# ------------------------------------------------------------------ trace checking
def check_traces(scr, module, traces, chunk=None, extra_env=None, cfg=None):
    """runs the trace specification over the traces; returns id -> list of (prop, pos, why)"""
    if not traces: return {}
    n = max(1, min(NCPU, (len(traces) + 49) // 50))
    if chunk: n = max(n, (len(traces) + chunk - 1) // chunk)
    parts = [traces[k::n] for k in range(n)]
    def one(k):
        f = scr.path("traces-%s-%d.ndjson" % (module, k))
        with open(f, "w") as fh:
            for t in parts[k]: fh.write(json.dumps(t) + "\n")
        env = dict(TRACES=f); env.update(extra_env or {})
        return tlc(scr, module, env, name="%s-%d" % (module, k), cfg=cfg)
    rej, done = {}, set()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for out in ex.map(one, range(n)):
            for l in printed(out, "REJECT"):
                _, i, prop, pos, why = l.split("|", 4)
                x = (prop, int(pos), why)
                if x not in rej.setdefault(int(i), []): rej[int(i)].append(x)
            for l in printed(out, "VERDICT"):
                done.add(int(l.split("|")[1]))
    miss = {t["id"] for t in traces} - done
    miss -= {i for i in rej if any(p == "BADSCENARIO" for p, _, _ in rej[i])}
    if miss: raise Machinery("no verdict for traces %s" % sorted(miss)[:5])
    return rej

# ------------------------------------------------------------------ reporting
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k.get("status", "known") == "known"]

class Report:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.viol, self.known, self.samples, self.cov = [], [], [], {}
        self.notes = []
    def violation(self, what, replay):
        d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        if len(self.viol) < 20:
            json.dump(dict(property=self.prop, what=what, **replay), open(p, "w"), indent=1)
        self.viol.append((what, p))
    def finding(self, what): self.known.append(what)
    def finish(self, traces):
        cov = dict(states=Stats.states, transitions=Stats.transitions, traces_validated_against_impl=traces, samples=self.samples[:4])
        cov.update(self.cov)
        if self.notes: cov["notes"] = self.notes
        if self.viol: cov["violations"] = [w for w, _ in self.viol[:20]]
        if self.known: cov["known_findings"] = self.known
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 1))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for w in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for w, p in self.viol[:10]: print("VIOLATION property=%s replay=%s" % (self.prop, p)); print("   " + w[:600])
        print("%s %s: %d traces, %d states, %d transitions, %d violations, %.1fs" % (self.prop, self.tier, traces, Stats.states, Stats.transitions, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0
