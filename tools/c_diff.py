"""C01 C02 C04: differences computed by the real code are executed as Catalog steps (spec/DiffTrace.tla)."""
import json, random, re
import common, schema, render, sql

BUDGET = {"quick": 400, "thorough": 6000}
CROWD = {"quick": 40, "thorough": 600}            # large schemas per dialect

def tables_only(d, cat, rng):
    """catalog reduced to table t1 without foreign keys (for DiffCreateTable)"""
    tab = json.loads(json.dumps(render.fn(cat["tables"]).get("t1")))
    if tab is None: return None
    tab["cons"] = {k: c for k, c in render.fn(tab["cons"]).items() if c["kind"] != "FK"}
    tab["il"] = dict(parent="", act="")
    return dict(tables={"t1": tab}, idx={i: x for i, x in render.fn(cat["idx"]).items() if x["t"] == "t1"} if d in ("mysql", "cockroachdb") else {})

def scenarios(prop, tier, seed, scr):
    """id -> dict(d, before items, after items, texts, op)"""
    cats = schema.catalogs(scr, tier, seed)
    ps = schema.pairs(cats, seed, BUDGET[tier])
    inst = schema.instantiate_all(ps)
    sc, ops = {}, []
    def add(d, ia, ib, texts, step):
        k = len(ops)
        sc[k] = dict(d=d, a=ia, b=ib, texts=texts, step=step)
        ops.append(dict(id=k, d=d, texts=texts, steps=[step]))
    rng = random.Random(seed * 7 + 1)
    for i, (ia, ib, ta, tb) in inst.items():
        d = ps[i][0]
        add(d, ia, ib, [ta, tb], dict(i=0, j=1))
        if rng.random() < .02: add(d, [], ib, ["", tb], dict(i=0, j=1))
        if rng.random() < .02: add(d, [], ib, ["", tb], dict(i=-1, j=1))
        if rng.random() < .02: add(d, ia, [], [ta, ""], dict(i=0, j=1))
        if rng.random() < .02: add(d, ia, [], [ta, ""], dict(i=0, j=-1))
    for d, ia, ib, ta, tb in schema.crowds(cats, seed, CROWD[tier]): add(d, ia, ib, [ta, tb], dict(i=0, j=1))
    # one table, with the option that adds constraints as NOT VALID
    tp = []
    for i, (d, a, b, sd) in enumerate(ps):
        if rng.random() < .12:
            x, y = tables_only(d, a, rng), tables_only(d, b, rng)
            if x and y: tp.append((d, x, y, sd + ":t"))
    for i, (ia, ib, ta, tb) in schema.instantiate_all(tp).items():
        d = tp[i][0]
        if [x["e"] for x in ia + ib] == ["CreateTable"] * 2:
            add(d, ia, ib, [ta, tb], dict(i=0, j=1, table=1, notvalid=rng.random() < .5))
    return sc, ops

def trace(k, s, out):
    d = s["d"]
    return dict(id=k, d=d, kind="diff", before=render.events(s["a"]), after=render.events(s["b"]), events=sql.read_script(out, d))

def judge(drv, scr, sc, ops):
    """-> (results, traces, rejects: id -> [(prop, pos, why)])"""
    res = common.drive(drv, ops)
    traces, rej, unparsed = [], {}, 0
    for k, r in res.items():
        if r["panic"] or r["hang"]:
            rej[k] = [("C01", 0, "the comparison crashes: " + r["panic"][:300] if r["panic"] else "the comparison does not end")]; continue
        if not all(p["ok"] for p in r["parsed"]): unparsed += 1; continue
        s = r["steps"][0]
        if not s["ok"] and not s["nodiff"]:
            rej[k] = [("C01", 0, "the comparison fails: " + s["err"])]; continue
        traces.append(trace(k, sc[k], s["out"]))
    for i, rs in common.check_traces(scr, "DiffTrace", traces).items():
        rej.setdefault(i, []).extend(rs)
    return res, traces, rej, unparsed

NORM = re.compile(r'\{.*?\}|\[.*\]|"[^"]*"|(column|constraint|index|table|key|option) \S+')

def run(prop, tier, seed, scr, rep):
    drv = common.build_driver(scr)
    sc, ops = scenarios(prop, tier, seed, scr)
    res, traces, rej, unparsed = judge(drv, scr, sc, ops)
    if unparsed * 2 > len(ops): raise common.Machinery("%d of %d pairs were not parsed" % (unparsed, len(ops)))
    bad = [r for rs in rej.values() for r in rs if r[0] == "BADSCENARIO"]
    if bad: raise common.Machinery("bad scenario: %s" % (bad[0],))
    known = {k["key"]: k for k in common.known_findings(prop)}
    seen, quirks = {}, {}
    for i in sorted(rej):
        for p, pos, why in rej[i]:
            if p == "KF":
                if prop != "C02": continue
                quirks[why] = quirks.get(why, 0) + 1
                if why in known: continue
            elif p != prop: continue
            key = (sc[i]["d"], NORM.sub("\\1", why)[:80])
            size = sum(map(len, sc[i]["texts"]))
            if key not in seen or size < seen[key][0]: seen[key] = (size, i, pos, why)
    for (d, _), (_, i, pos, why) in sorted(seen.items()):
        out = res[i]["steps"][0]["out"] if res[i]["steps"] else ""
        rep.violation("%s: %s\n-- before\n%s\n-- after\n%s\n-- difference\n%s" % (d, why, *sc[i]["texts"], out),
                      dict(kind="diff", d=d, before=sc[i]["a"], after=sc[i]["b"], texts=sc[i]["texts"], step=sc[i]["step"], why=why, pos=pos))
    probes(prop, drv, scr, rep, quirks)
    rep.cov.update(pairs=len(ops), statements=sum(len(t["events"]) for t in traces), per_dialect={d: sum(t["d"] == d for t in traces) for d in sql.DIALECTS}, unparsed=unparsed,
                   nonempty_differences=sum(bool(t["events"]) for t in traces))
    rep.samples = [dict(texts=sc[t["id"]]["texts"], difference=res[t["id"]]["steps"][0]["out"]) for t in traces[::max(1, len(traces) // 4)][:4]]
    return len(traces)

def probes(prop, drv, scr, rep, quirks=None):
    """known findings: shown to be there still by their own inputs"""
    ks = [k for k in common.known_findings(prop) if k["probe"]["kind"] == "diff"]
    ops, sc = [], {}
    for n, k in enumerate(ks):
        p = k["probe"]
        ops.append(dict(id=n, d=p["d"], texts=[p["before"], p["after"]], steps=[dict(i=0, j=1)]))
        sc[n] = p
    if not ops: return
    res = common.drive(drv, ops)
    traces = []
    for n, r in res.items():
        p = sc[n]
        if r["panic"]: rep.finding(ks[n]["what"]); continue
        traces.append(dict(id=n, d=p["d"], kind="diff", before=sql.read_script(p["before"], p["d"]), after=sql.read_script(p["after"], p["d"]), events=sql.read_script(r["steps"][0]["out"], p["d"])))
    rej = common.check_traces(scr, "DiffTrace", traces)
    for n, k in enumerate(ks):
        if any(p == prop or (p == "KF" and why == k["key"]) for p, _, why in rej.get(n, [])): rep.finding(k["what"])
        else: rep.notes.append("known finding %s does not fail any more" % k["key"])

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        drv = common.build_driver(scr)
        sc = {0: dict(d=x["d"], a=x["before"], b=x["after"], texts=x["texts"], step=x["step"])}
        res, traces, rej, _ = judge(drv, scr, sc, [dict(id=0, d=x["d"], texts=x["texts"], steps=[x["step"]])])
        print("before:\n%s\nafter:\n%s\ndifference:\n%s" % (*x["texts"], res[0]["steps"][0]["out"] if res[0]["steps"] else res[0]["panic"]))
        hit = [r for r in rej.get(0, []) if r[0] == prop]
        for r in rej.get(0, []): print("REJECT", r)
        if hit: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if hit else 0
    finally:
        scr.close()
