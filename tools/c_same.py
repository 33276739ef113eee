"""C03: two texts of one catalog (spec/DiffTrace.tla, kind "same") must be compared as having no difference."""
import copy, json, random
import common, schema, render, sql

BUDGET = {"quick": 700, "thorough": 9000}
CROWD = {"quick": 30, "thorough": 400}

SPELL = {   # spellings of one type the databases document
 "postgres": [("INTEGER", "INT"), ("TIMESTAMP WITH TIME ZONE", "TIMESTAMPTZ"), ("TIMESTAMP", "TIMESTAMP WITHOUT TIME ZONE"), ("CHARACTER VARYING", "VARCHAR"), ("NUMERIC", "DECIMAL")],
 "cockroachdb": [("INT2", "SMALLINT"), ("INT8", "BIGINT"), ("INT4", "INTEGER", "INT"), ("BOOL", "BOOLEAN"), ("STRING", "TEXT"), ("VARCHAR", "CHARACTER VARYING"), ("FLOAT8", "DOUBLE PRECISION"),
                 ("FLOAT4", "REAL"), ("DECIMAL", "NUMERIC"), ("TIMESTAMPTZ", "TIMESTAMP WITH TIME ZONE")],
 "mysql": [("BOOLEAN", "TINYINT(1)"), ("INTEGER", "INT"), ("DECIMAL", "NUMERIC"), ("DOUBLE", "DOUBLE PRECISION", "REAL"), ("VARCHAR", "CHARACTER VARYING")],
 "spanner": [],
}
def respell(t, d, rng):
    if t in ("BOOLEAN", "TINYINT(1)") and d == "mysql": return rng.choice(["BOOLEAN", "TINYINT(1)"])
    base, sep, args = t.partition("(")
    for g in SPELL[d]:
        if base in g and not (d == "mysql" and g[0] in ("BOOLEAN",)):
            if args and base == "REAL" or args and "DOUBLE PRECISION" in g: return t
            if d == "cockroachdb" and args and g[0] in ("TIMESTAMPTZ", "STRING"): return t     # (precision: only one spelling is accepted)
            return rng.choice(g) + sep + args
    return t

def vary(items, d, rng):
    """the same schema written down differently"""
    items = copy.deepcopy(items)
    for it in items:
        if d != "mysql" and rng.random() < .5: it["ine"] = not it["ine"]
        if it["e"] != "CreateTable": continue
        for n in it["order"]:
            if rng.random() < .5: it["_raw"][n]["type"] = respell(it["_raw"][n]["type"], d, rng)
        dn = [render.default_name(d, it["tb"], c) for c in it["cons"] if c["kind"] == "CK" and not c["name"]]
        for c in it["cons"]:
            if len(c["on"]) > 1: c["_on"] = rng.sample(c["on"], len(c["on"]))
            if c["name"] or c["kind"] in ("IX",) or (c["kind"] == "PK" and d in ("mysql", "spanner")) or (c["kind"] == "UQ" and d != "postgres") or rng.random() < .6: continue
            name = render.default_name(d, it["tb"], c)
            if c["kind"] == "CK" and dn.count(name) > 1: continue
            c["name"] = name
            if c["kind"] == "CK": c["inline"] = False; c["cols"] = []; c["dirs"] = []
        if len(dn) == len(set(dn)):
            rng.shuffle(it["cons"])
            if d == "spanner": it["cons"].sort(key=lambda c: c["kind"] == "PK")
        # (a column that was added by a difference comes last in the database)
        if len(dn) == len(set(dn)) and rng.random() < .3: rng.shuffle(it["order"])
        if it["opts"]:
            ks = list(it["opts"]); rng.shuffle(ks); it["opts"] = {k: it["opts"][k] for k in ks}
    tabs = [i for i in items if i["e"] == "CreateTable"]
    rng.shuffle(tabs)
    out = list(tabs)
    for ix in rng.sample([i for i in items if i["e"] != "CreateTable"], len(items) - len(tabs)):
        at = [k for k, x in enumerate(out) if x["e"] == "CreateTable" and x["t"] == ix["t"]][0]
        out.insert(rng.randint(at + 1, len(out)), ix)
    return out

def _one(x):
    i, (d, c, sd, wide) = x
    r = schema.instantiate(d, c, None, sd, wide=wide)
    if r is None: return i, None
    rng = random.Random(sd + "v")
    ia, _, ta, _ = r
    ib = vary(ia, d, rng)
    tb = render.text(ib, render.Style.random(d, rng))
    schema.selfcheck(ib, tb, d)
    return i, (ia, ib, ta, tb)

def judge(drv, scr, sc):
    """sc: id -> (d, items a, items b, text a, text b) -> (traces, rejects, refused)"""
    res = common.drive(drv, [dict(id=i, d=s[0], texts=[s[3], s[4]], steps=[dict(i=0, j=1), dict(i=1, j=0), dict(i=0, j=0)]) for i, s in sc.items()])
    traces, rej, refused, again = [], {}, 0, []
    def add(i, v, ea, eb, r, k):
        st = r["steps"][k]
        if not st["ok"] and not st["nodiff"]: rej.setdefault(i, []).append(("C03", 0, "the comparison fails: " + st["err"])); return
        traces.append(dict(id=8 * i + v, d=sc[i][0], kind="same", before=ea, after=eb, nodiff=st["nodiff"], events=sql.read_script(st["out"], sc[i][0])))
        outs[8 * i + v] = st["out"]
    outs = {}
    for i, r in res.items():
        d, ia, ib, ta, tb = sc[i]
        if r["panic"] or r["hang"]: rej[i] = [("C03", 0, "the comparison crashes: " + r["panic"][:300])]; continue
        if not all(p["ok"] for p in r["parsed"]): refused += 1; continue
        ea, eb = render.events(ia), render.events(ib)
        add(i, 0, ea, eb, r, 0); add(i, 1, eb, ea, r, 1); add(i, 2, ea, ea, r, 2)
        again.append(dict(id=i, d=d, texts=[r["parsed"][0]["out"], tb], steps=[dict(i=0, j=1), dict(i=1, j=0)]))
    for i, r in (common.drive(drv, again) if again else {}).items():
        if r["panic"] or not all(p["ok"] for p in r["parsed"]): refused += 1; continue
        ea, eb = render.events(sc[i][1]), render.events(sc[i][2])
        add(i, 3, ea, eb, r, 0); add(i, 4, eb, ea, r, 1)
    for k, rs in common.check_traces(scr, "DiffTrace", traces).items():
        rej.setdefault(k // 8, []).extend((p, k, w) for p, _, w in rs)
    return traces, rej, refused, outs

def run(prop, tier, seed, scr, rep):
    drv = common.build_driver(scr)
    cats = schema.catalogs(scr, tier, seed)
    rng = random.Random(seed * 17 + 3)
    xs = []
    for d, bases in cats.items():
        every = [c for lst in bases.values() for _, c in lst]
        for c in schema.spread(rng, bases[next(iter(bases))][0][1], every, BUDGET[tier]): xs.append((d, c, "s%d:%d" % (seed, len(xs)), False))
        for _ in range(BUDGET[tier] // 2): xs.append((d, rng.choice(every), "sw%d:%d" % (seed, len(xs)), True))
    sc = {i: (xs[i][0], *r) for i, r in common.pmap(_one, list(enumerate(xs))) if r is not None}
    for d, ia, _, ta, _ in schema.crowds(cats, seed, CROWD[tier]):
        ib = vary(ia, d, rng); tb = render.text(ib, render.Style.random(d, rng))
        schema.selfcheck(ib, tb, d)
        sc[len(xs)] = (d, ia, ib, ta, tb); xs.append(None)
    traces, rej, refused, outs = judge(drv, scr, sc)
    bad = [(sc[i], r) for i, rs in rej.items() for r in rs if r[0] == "BADSCENARIO"]
    if bad: raise common.Machinery("bad scenario: %s\n%s\n%s" % (bad[0][1], bad[0][0][3], bad[0][0][4]))
    if refused * 2 > len(sc): raise common.Machinery("%d of %d texts were refused" % (refused, len(sc)))
    probes(drv, rep)
    best = {}
    for i in rej:
        for p, k, why in rej[i]:
            if p != "C03": continue
            first = next((l for l in outs.get(k, why).splitlines() if not l.startswith("--")), why)
            key = (sc[i][0], " ".join(first.split()[:2]))
            if key not in best or len(sc[i][3]) < best[key][0]: best[key] = (len(sc[i][3]), i, k, why)
    for (d, _), (_, i, k, why) in sorted(best.items()):
        rep.violation("%s: %s\n-- text 1\n%s\n-- text 2\n%s\n-- difference\n%s" % (d, why, sc[i][3], sc[i][4], outs.get(k, "")), dict(kind="same", scenario=sc[i], why=why))
    rep.cov.update(pairs_of_texts=len(sc), refused=refused, per_dialect={d: sum(t["d"] == d for t in traces) for d in sql.DIALECTS})
    rep.samples = [dict(text1=sc[i][3], text2=sc[i][4]) for i in list(sc)[::max(1, len(sc) // 4)]][:4]
    return len(traces)

def probes(drv, rep):
    """known findings: two texts of one schema that have a difference"""
    ks = common.known_findings("C03")
    res = common.drive(drv, [dict(id=n, d=k["probe"]["d"], texts=k["probe"]["texts"], steps=[dict(i=0, j=1)]) for n, k in enumerate(ks)]) if ks else {}
    for n, r in res.items():
        if r["panic"] or not all(p["ok"] for p in r["parsed"]) or not r["steps"][0]["nodiff"]: rep.finding(ks[n]["what"])
        else: rep.notes.append("known finding %s does not fail any more" % ks[n]["key"])

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        sc = {0: tuple(x["scenario"])}
        traces, rej, refused, outs = judge(common.build_driver(scr), scr, sc)
        print("text 1:\n%s\ntext 2:\n%s\ndifferences:\n%s" % (sc[0][3], sc[0][4], "\n".join(outs.values())))
        for r in rej.get(0, []): print("REJECT", r)
        if rej.get(0): print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rej.get(0) else 0
    finally: scr.close()
