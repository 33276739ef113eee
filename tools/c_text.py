"""C05: texts of declared schemas are parsed and printed by the real code; the print is replayed as Catalog steps."""
import json, random
import common, schema, render, sql

BUDGET = {"quick": 700, "thorough": 8000}
CROWD = {"quick": 40, "thorough": 500}

def _one(x):
    i, (d, c, sd, wide) = x
    r = schema.instantiate(d, c, None, sd, wide=wide)
    if r is None: return i, None
    ia, _, ta, _ = r
    schema.selfcheck(ia, ta, d)
    return i, (ia, ta)

def scenarios(tier, seed, scr):
    cats = schema.catalogs(scr, tier, seed)
    rng = random.Random(seed * 13 + 5)
    xs = []
    for d, bases in cats.items():
        every = [c for lst in bases.values() for _, c in lst]
        first = [bases[b][0][1] for b in bases]
        for c in schema.spread(rng, first[1], every, BUDGET[tier]): xs.append((d, c, "n%d:%d" % (seed, len(xs)), False))
        for _ in range(BUDGET[tier]): xs.append((d, rng.choice(every), "w%d:%d" % (seed, len(xs)), True))
    sc = {i: r for i, r in common.pmap(_one, list(enumerate(xs))) if r is not None}
    for d, ia, ib, ta, tb in schema.crowds(cats, seed, CROWD[tier]):
        sc[len(xs)] = (ia, ta); xs.append((d,))
    return xs, sc

def judge(drv, scr, sc):
    """sc: id -> (dialect, items, text) -> (prints, traces, rejects)"""
    res = common.drive(drv, [dict(id=i, d=d, texts=[t], steps=[]) for i, (d, _, t) in sc.items()])
    rej, outs, traces = {}, {}, []
    for i, r in res.items():
        d, items, t = sc[i]
        if r["panic"] or r["hang"]: rej[i] = [("C05", 0, "parsing crashes: " + r["panic"][:300] if r["panic"] else "parsing does not end")]; continue
        if not r["parsed"][0]["ok"]: rej[i] = [("C05", 0, "a schema of the supported grammar is refused: " + r["parsed"][0]["err"][-300:])]; continue
        outs[i] = r["parsed"][0]["out"]
        traces.append(dict(id=i, d=d, kind="print", before=[], after=render.events(items), events=sql.read_script(outs[i], d)))
    again = common.drive(drv, [dict(id=i, d=sc[i][0], texts=[o], steps=[]) for i, o in outs.items()]) if outs else {}
    for i, r in again.items():
        p = r["parsed"][0] if r["parsed"] else dict(ok=False, err=r["panic"])
        if not p["ok"]: rej.setdefault(i, []).append(("C05", 1, "the printed form is refused: " + p["err"][-300:]))
        elif p["out"] != outs[i]: rej.setdefault(i, []).append(("C05", 1, "the printed form prints differently: %s" % p["out"]))
    for i, rs in common.check_traces(scr, "DiffTrace", traces).items():
        rej.setdefault(i, []).extend(("C05",) + r[1:] if r[0] == "C02" else r for r in rs)
    return outs, traces, rej

def run(prop, tier, seed, scr, rep):
    drv = common.build_driver(scr)
    xs, inst = scenarios(tier, seed, scr)
    sc = {i: (xs[i][0], *r) for i, r in inst.items()}
    outs, traces, rej = judge(drv, scr, sc)
    bad = [r for rs in rej.values() for r in rs if r[0] == "BADSCENARIO"]
    if bad: raise common.Machinery("bad scenario: %s" % (bad[0],))
    from c_diff import NORM
    seen = {}
    for i in sorted(rej):
        for p, pos, why in rej[i]:
            if p != "C05": continue
            key = (sc[i][0], NORM.sub("\\1", why)[:80])
            if key not in seen or len(sc[i][2]) < seen[key][0]: seen[key] = (len(sc[i][2]), i, why)
    for (d, _), (_, i, why) in sorted(seen.items()):
        rep.violation("%s: %s\n-- text\n%s\n-- printed\n%s" % (d, why, sc[i][2], outs.get(i)), dict(kind="print", d=d, items=sc[i][1], text=sc[i][2], why=why))
    probes(drv, scr, rep)
    rep.cov.update(texts=len(sc), per_dialect={d: sum(t["d"] == d for t in traces) for d in sql.DIALECTS}, bytes=sum(len(s[2]) for s in sc.values()))
    rep.samples = [dict(text=sc[t["id"]][2], printed=outs[t["id"]]) for t in traces[::max(1, len(traces) // 4)][:4]]
    return len(traces)

def probes(drv, scr, rep):
    for k in common.known_findings("C05"):
        d, t = k["probe"]["d"], k["probe"]["text"]
        _, _, rej = judge(drv, scr, {0: (d, [], t)}) if False else probe1(drv, scr, d, t)
        if rej: rep.finding(k["what"])
        else: rep.notes.append("known finding %s does not fail any more" % k["key"])

def probe1(drv, scr, d, t):
    r = common.drive(drv, [dict(id=0, d=d, texts=[t], steps=[])])[0]
    if r["panic"] or not r["parsed"][0]["ok"]: return None, None, True
    ev = dict(id=0, d=d, kind="print", before=[], after=sql.read_script(t, d), events=sql.read_script(r["parsed"][0]["out"], d))
    return None, None, bool(common.check_traces(scr, "DiffTrace", [ev]))

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        outs, _, rej = judge(common.build_driver(scr), scr, {0: (x["d"], x["items"], x["text"])})
        print("text:\n%s\nprinted:\n%s" % (x["text"], outs.get(0)))
        for r in rej.get(0, []): print("REJECT", r)
        if rej.get(0): print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rej.get(0) else 0
    finally: scr.close()
