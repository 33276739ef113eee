"""C11: databases (schemas of spec/Gen.tla, failures of spec/Show.tla) shown by the real command; what it prints is read,
executed as Catalog steps and compared with what the database holds by spec/ShowTrace.tla."""
import json, random, re
import common, schema, render, sql, fakedb, showdb
from c_apply import DSN

BUDGET = {"quick": 90, "thorough": 1500}          # databases per dialect
THREADS = 48

class Db(fakedb.Scenario):
    def __init__(self, id, d, answers, fault, at):
        super().__init__(id, d)
        self.a, self.fault, self.at, self.n, self.hit, self.bad = answers, fault, at, 0, False, None
    def on_open(self, n):
        if self.fault == "open": self.hit = True; return "dial tcp 10.0.0.1: connection refused"
        return ""
    def on_query(self, q, args):
        self.n += 1
        if self.fault == "query" and self.n == self.at: self.hit = True; raise fakedb.DBError("server closed the connection unexpectedly")
        cols, rows = self.a.query(q, args)
        if self.fault == "rows" and self.n == self.at: self.hit = True; rows = rows[:max(0, len(rows) - 1)] + [[{"err": "unexpected EOF"}]]
        return cols, rows

def quoted(e):
    """reserved words that are names stand in quotation marks in what the database reports"""
    for t in reversed(sql.tokenize(e, "postgres")):
        if t.k == "w" and t.raw in render.MUSTQ: e = e[:t.pos] + '"' + t.raw + '"' + e[t.pos + len(t.raw):]
    return e

def named(d, items, rng):
    """every constraint with the name and form it has when it is reported"""
    if d in ("mysql", "cockroachdb"):
        for it in items:
            taken = {c["name"] for c in it["cons"]}
            for c in it["cons"]:
                if not c["name"] and not (d == "mysql" and c["kind"] == "PK"):
                    n = dn = render.default_name(d, it["tb"], c); k = 0
                    while n in taken: k += 1; n = dn + str(k)
                    taken.add(n); c["name"] = n; c["inline"] = False
                    if c["kind"] == "CK": c["cols"] = []; c["dirs"] = []
    if d == "postgres":
        fks = [(it["t"], c["name"]) for it in items if it["e"] == "CreateTable" for c in it["cons"] if c["kind"] in ("FK", "CK")]
        for it in items:
            if it["e"] == "CreateTable":
                for c in it["cons"]:
                    if c["kind"] == "CK": c["_expr"] = quoted(c["_expr"])
                    if c["kind"] == "FK": c.pop("_on", None); c["on"] = rng.choice([[], ["DELETE CASCADE"], ["UPDATE CASCADE"], ["DELETE CASCADE", "UPDATE CASCADE"]])
            elif fks and rng.random() < .2: it["n"] = fks.pop()[1]
    return items

def build(x):
    """-> (items, answers' random seed) or None"""
    d, cat, sd = x
    rng = random.Random(sd)
    cat = showdb.reported(json.loads(json.dumps(cat)), d)
    m = showdb.Mapping(d, rng, render.attrs_used([cat]))
    try: items = render.concretize(cat, m, rng)
    except render.Skip: return None
    if d in ("mysql", "cockroachdb"): items = [it for it in items if it["e"] == "CreateTable"]
    showdb.used(items)
    return d, named(d, items, rng), sd

def declared(d, items, answers):
    return sql.read_script(answers.script(), d) if d in ("mysql", "cockroachdb") else render.events(items)

def scenarios(scr, tier, seed):
    out = common.tlc(scr, "Show", dict(SHOW_TABLES="2" if tier == "quick" else "3", SHOW_INDEXES="1" if tier == "quick" else "2"), workers=8, name="show")
    faults = {}
    for l in common.printed(out, "SCN"):
        s = json.loads(l.split("|", 1)[1])
        if s["kind"] != "none": faults.setdefault(s["d"], set()).add((s["kind"], s["at"]))
    cats = schema.catalogs(scr, tier, seed)
    rng = random.Random(seed * 37 + 3)
    xs = []
    for d in sorted(cats):
        lst = [(c, b) for b, l in cats[d].items() for _, c in l]
        base = cats[d]["2"][0][1]
        for n, c in enumerate(schema.spread(rng, base, [c for c, _ in lst], BUDGET[tier])): xs.append((d, c, "s%d:%s:%d" % (seed, d, n)))
        xs.append((d, dict(tables={}, idx={}), "s%d:%s:e" % (seed, d)))
    dbs = [y for y in map(build, xs) if y is not None]
    jobs = []
    for d, items, sd in dbs: jobs.append(dict(id=len(jobs), d=d, items=items, sd=sd, fault="none", at=0, dsn=rng.choice(DSN[d])))
    for d in sorted(faults):
        mine = [x for x in dbs if x[0] == d and len(x[1]) >= 2] or [x for x in dbs if x[0] == d]
        for k, at in sorted(faults[d]):
            for _ in range(3 if at <= 6 else 1):
                _, items, sd = rng.choice(mine)
                jobs.append(dict(id=len(jobs), d=d, items=items, sd=sd, fault=k, at=at, dsn=rng.choice(DSN[d])))
    return jobs

def judge(scr, jobs):
    binary, drv = fakedb.build_cli(scr), common.build_driver(scr)
    srv, env = fakedb.Server(scr), fakedb.clean_env()
    def one(j):
        a = showdb.Answers(j["d"], j["items"], random.Random(j["sd"]))
        db = Db(j["id"], j["d"], a, j["fault"], j["at"])
        r = fakedb.run_cli(binary, srv, db, ["show", "--dialect", j["d"], j["dsn"]], scr.dir, scr.path("show-%d" % j["id"]), env=env)
        r.update(after=declared(j["d"], j["items"], a), hit=db.hit, queries=db.n)
        return r
    try: rs = fakedb.run_many(jobs, one, THREADS)
    finally: srv.close()
    good = [(j, r) for j, r in zip(jobs, rs) if r["rc"] == 0]
    res = common.drive(drv, [dict(id=j["id"], d=j["d"], texts=[r["out"]], steps=[]) for j, r in good])
    traces, outs = [], {}
    for j, r in zip(jobs, rs):
        x = res.get(j["id"])
        ok = bool(x) and not x["panic"] and not x["hang"] and x["parsed"][0]["ok"]
        ev = sql.read_script(r["out"], j["d"]) if r["rc"] == 0 else []
        traces.append(dict(id=j["id"], d=j["d"], kind="show", before=[], after=r["after"], events=ev, fault=j["fault"], hit=r["hit"], rc=abs(r["rc"]), printed=bool(r["out"].strip()), parsed=ok))
        outs[j["id"]] = r
    return traces, common.check_traces(scr, "ShowTrace", traces), outs

def run(prop, tier, seed, scr, rep):
    jobs = scenarios(scr, tier, seed)
    traces, rej, outs = judge(scr, jobs)
    bad = [r for rs in rej.values() for r in rs if r[0] == "BADSCENARIO"]
    if bad: raise common.Machinery("bad scenario: %s" % (bad[0],))
    best = {}
    for i, rs in rej.items():
        for p, pos, why in rs:
            if p == "KF": continue
            k = (jobs[i]["d"], re.sub(r"\{.*|<<.*|\[.*|\"[^\"]*\"", "", why)[:50])
            size = len(json.dumps(jobs[i]["items"]))
            if k not in best or size < best[k][0]: best[k] = (size, i, why)
    for (d, _), (_, i, why) in sorted(best.items()):
        rep.violation("%s: %s\n-- shown (status %d, %s %d)\n%s%s" % (d, why, outs[i]["rc"], jobs[i]["fault"], jobs[i]["at"], outs[i]["out"], outs[i]["err"][-400:]), dict(kind="show", job=jobs[i], why=why))
    probes(prop, scr, rep)
    rep.cov.update(databases=len(jobs), queries=sum(r["queries"] for r in outs.values()), failures=sum(r["hit"] for r in outs.values()), statements=sum(len(t["events"]) for t in traces), per_dialect={d: sum(j["d"] == d for j in jobs) for d in sql.DIALECTS})
    rep.samples = [dict(shown=outs[j["id"]]["out"], fault=j["fault"]) for j in jobs[::max(1, len(jobs) // 4)][:4]]
    return len(traces)

def probes(prop, scr, rep):
    ks = [k for k in common.known_findings(prop) if k["probe"]["kind"] == "show"]
    if not ks: return
    binary, drv = fakedb.build_cli(scr), common.build_driver(scr)
    srv, env = fakedb.Server(scr), fakedb.clean_env()
    try:
        for n, k in enumerate(ks):
            p = k["probe"]
            rng = random.Random(1)
            a = showdb.Answers(p["d"], p.get("items", []), rng)
            if "rows" in p: a.decls = p["rows"]
            db = Db("p%d" % n, p["d"], a, "none", 0)
            r = fakedb.run_cli(binary, srv, db, ["show", "--dialect", p["d"], DSN[p["d"]][0]], scr.dir, scr.path("probe-%d" % n), env=env)
            x = common.drive(drv, [dict(id=0, d=p["d"], texts=[r["out"]], steps=[])])[0]
            fails = r["rc"] != 0 or not x["parsed"][0]["ok"] or any(w not in r["out"] for w in p["wants"])
            if fails: rep.finding(k["what"])
            else: rep.notes.append("known finding %s does not fail any more" % k["key"])
    finally: srv.close()

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        traces, rej, outs = judge(scr, [x["job"]])
        for r in outs.values(): print("-- shown (status %d)\n%s%s" % (r["rc"], r["out"], r["err"][-500:]))
        rs = [r for v in rej.values() for r in v if r[0] != "KF"]
        for r in rs: print("REJECT", r)
        if rs: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rs else 0
    finally: scr.close()
