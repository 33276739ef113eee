"""stage2.py DIALECT IN.jsonl OUT.jsonl: which checks see each mutant of pkg/ddl/DIALECT that the tests let live
(development aid: scenarios are made once, only what a mutant changes is validated again)"""
import sys, os, json, hashlib, pickle, time, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import common, schema, sql
D, IN, OUT = sys.argv[1:4]
PROPS = ["C01", "C02", "C04", "C05", "C03", "C13", "C06"]
scr = common.Scratch()
memo = {}
def key(*x): return hashlib.md5(pickle.dumps(x)).hexdigest()
_tlc, _drive, _check, _pmap, _cats, _read = common.tlc, common.drive, common.check_traces, common.pmap, schema.catalogs, sql.read_script
def tlc(scr, module, env=None, *a, **k):
    if env and "TRACES" in env: return _tlc(scr, module, env, *a, **k)
    q = key("tlc", module, env, {x: v for x, v in k.items() if x == "extra"})
    if q not in memo: memo[q] = _tlc(scr, module, env, *a, **k)
    return memo[q]
def pmap(f, xs, chunk=64):
    q = key("pmap", f.__module__, f.__name__, xs)
    if q not in memo: memo[q] = pickle.dumps(_pmap(f, xs, chunk))
    return pickle.loads(memo[q])
BIN = None
base = {}
def drive(binary, ops, env=None, timeout=600, procs=4):
    ops = [o for o in ops if o["d"] == D]
    out = _drive(BIN, ops, env, timeout, 4) if ops else {}
    return out
verd = {}
def check(scr, module, traces, chunk=None, extra_env=None, cfg=None):
    todo, res, ks = [], {}, {}
    for t in traces:
        q = key(module, extra_env, json.dumps({x: v for x, v in t.items() if x != "id"}, sort_keys=True)); ks[t["id"]] = q
        if q not in verd: todo.append(t)
    if len(todo) > 400 and READY: todo = random.Random(1).sample(todo, 400)
    for t in todo: verd[ks[t["id"]]] = []
    for i, r in _check(scr, module, todo, chunk, extra_env, cfg).items(): verd[ks[i]] = r
    for t in traces:
        v = verd.get(ks[t["id"]])
        if v: res[t["id"]] = v
    return res
rc = {}
def read(text, d):
    q = (text, d)
    if q not in rc:
        if len(rc) > 60000: rc.clear()
        try: rc[q] = (True, pickle.dumps(_read(text, d)))
        except sql.SqlError as e: rc[q] = (False, e)
    ok, x = rc[q]
    if ok: return pickle.loads(x)
    raise x
READY = False
common.tlc, common.drive, common.check_traces, common.pmap, sql.read_script = tlc, drive, check, pmap, read
schema.catalogs = lambda scr, tier, seed, dialects=(D,), depth2=None: _cats(scr, tier, seed, (D,))
common.build_driver = lambda scr: BIN
import c_diff, c_text, c_same, c_session, c_parse
MOD = dict(C01=c_diff, C02=c_diff, C04=c_diff, C05=c_text, C03=c_same, C13=c_session, C06=c_parse)
for m in (c_diff, c_text, c_same, c_parse, c_session):
    for n in ("scenarios",):
        if hasattr(m, n):
            f = getattr(m, n)
            def g(*a, f=f, m=m):
                q = key("scen", m.__name__, [x for x in a if isinstance(x, (str, int))])
                if q not in memo: memo[q] = f(*a)
                return memo[q]
            setattr(m, n, g)
class Rep:
    def __init__(s): s.v, s.cov, s.samples, s.notes = [], {}, [], []
    def violation(s, what, replay): s.v.append(what)
    def finding(s, w): pass
def build(overlay, out):
    ov = dict(overlay); ov[common.REPO + "/cmd/verifdriver/main.go"] = common.VERIF + "/driver/main.go"
    return common.go_build(scr, out, "./cmd/verifdriver", ov)
def verdicts():
    r = {}
    for p in PROPS:
        rep = Rep()
        try: MOD[p].run(p, "quick", 1, scr, rep)
        except common.Machinery as e: r[p] = "MACHINERY " + str(e)[:200]; continue
        except Exception as e: r[p] = "CRASH %r" % e; continue
        if rep.v: r[p] = rep.v[0][:300]
    return r
BIN = build({}, scr.path("base"))
t = time.time(); b = verdicts(); print("baseline", b, "%.0fs" % (time.time() - t), flush=True)
t = time.time(); b = verdicts(); print("again", b, "%.0fs" % (time.time() - t), flush=True)
READY = True
done = set()
if os.path.exists(OUT):
    for l in open(OUT): x = json.loads(l); done.add((x["file"], x["n"]))
while True:
    ms = [json.loads(l) for l in open(IN)] if os.path.exists(IN) else []
    ms = [m for m in ms if m["st"] == "alive" and (m["file"].startswith("pkg/ddl/%s/" % D) or (D == "mysql" and m["file"].startswith(("pkg/internal/util", "pkg/ddl/internal")))) and (m["file"], m["n"]) not in done]
    if not ms: break
    m = ms[0]; done.add((m["file"], m["n"]))
    src = open("/repo/" + m["file"], "rb").read()
    g = scr.path("mut.go"); open(g, "wb").write(src[:m["start"]] + m["text"].encode() + src[m["end"]:])
    t = time.time()
    try: BIN = build({"/repo/" + m["file"]: g}, scr.path("mutdrv")); v = verdicts()
    except common.Machinery as e: v = {"build": str(e)[:200]}
    m["seen"] = v; m["s"] = round(time.time() - t, 1)
    m["line_text"] = src.decode().splitlines()[m["line"] - 1].strip()
    open(OUT, "a").write(json.dumps(m) + "\n")
    print(m["file"], m["line"], m["what"], list(v), m["s"], flush=True)
scr.close()
