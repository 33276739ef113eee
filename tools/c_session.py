"""C13: histories of comparisons over shared parsed schemas (spec/Session.tla) replayed and validated (spec/SessionTrace.tla)."""
import json, random
import common, schema, sql

BUDGET = {"quick": 700, "thorough": 4000}
N = 3

def histories(scr, tier, seed):
    """every history of 2 comparisons over 2 schemas, and random ones of 8 over N"""
    hs = []
    for n, ln, sim in ((2, 2, 0), (N, 8, 300 if tier == "quick" else 3000)):
        extra = ["-simulate", "num=%d" % sim, "-depth", str(ln + 1), "-seed", str(seed)] if sim else []
        out = common.tlc(scr, "Session", dict(SESSION_N=str(n), SESSION_LEN=str(ln)), extra=extra, name="session-%d" % n)
        seen = {}
        for l in common.printed(out, "HIST"): seen[l.split("|", 1)[1]] = 1
        hs.append([json.loads(x) for x in sorted(seen)])
    return hs

def _one(x):
    i, (d, cats, sd, wide, h) = x
    r = schema.instantiate_many(d, cats, sd, wide)
    return i, None if r is None else (d, [t for _, t in r], h)

def opsof(i, d, texts, h):
    return dict(id=i, d=d, texts=texts, steps=[dict(i=o["i"] - 1, j=o["j"] - 1) for o in h])

def answer(s):
    return "no difference" if s["nodiff"] else s["out"] if s["ok"] else "error: " + s["err"]

def judge(drv, scr, sc):
    res = common.drive(drv, [opsof(i, *s) for i, s in sc.items()])
    fresh, key = [], {}
    for i, (d, texts, h) in sc.items():
        for a, b in sorted({(o["i"], o["j"]) for o in h}):
            t = [texts[x - 1] if x else "" for x in (a, b)]
            key[len(fresh)] = (i, a, b)
            fresh.append(dict(id=len(fresh), d=d, texts=t, steps=[dict(i=0 if a else -1, j=1 if b else -1)]))
    f1 = common.drive(drv, fresh)
    f2 = common.drive(drv, fresh[::-1], env=dict(GOMAXPROCS="1"))
    anew = {}
    rej, traces, refused = {}, [], 0
    for f in (f1, f2):
        for n, r in f.items():
            i, a, b = key[n]
            if r["panic"] or r["hang"] or not all(p["ok"] for p in r["parsed"]): anew.setdefault(i, []).append(None); continue
            anew.setdefault(i, []).append(dict(i=a, j=b, out=answer(r["steps"][0])))
    for i, r in res.items():
        d, texts, h = sc[i]
        fr = anew[i]
        if r["panic"] and all(fr): rej[i] = [("C13", 0, "a history of comparisons crashes: " + r["panic"][:300])]; continue
        if r["panic"] or r["hang"] or not all(fr) or not all(p["ok"] for p in r["parsed"]): refused += 1; continue
        steps = [dict(i=o["i"], j=o["j"], out=answer(s), pi=s["i"], pj=s["j"]) for o, s in zip(h, r["steps"])]
        traces.append(dict(id=i, d=d, prints=[p["out"] for p in r["parsed"]], fresh=fr, steps=steps))
    for i, rs in common.check_traces(scr, "SessionTrace", traces).items(): rej.setdefault(i, []).extend(rs)
    return traces, rej, refused

def run(prop, tier, seed, scr, rep):
    drv = common.build_driver(scr)
    cats = schema.catalogs(scr, tier, seed)
    short, longh = histories(scr, tier, seed)
    rng = random.Random(seed * 29 + 11)
    xs = []
    for d, bases in cats.items():
        for n in range(BUDGET[tier]):
            lst = bases[rng.choice(list(bases))]
            every = [c for l in bases.values() for _, c in l]
            three = [lst[0][1], rng.choice(lst)[1], rng.choice(every if rng.random() < .2 else [c for _, c in lst])]
            rng.shuffle(three)
            if rng.random() < .4: xs.append((d, three[:2], "h%d:%d" % (seed, len(xs)), rng.random() < .3, rng.choice(short)))
            else: xs.append((d, three, "h%d:%d" % (seed, len(xs)), rng.random() < .3, rng.choice(longh)))
    sc = {i: s for i, s in common.pmap(_one, list(enumerate(xs))) if s is not None}
    for d, _, _, ta, tb in schema.crowds(cats, seed, BUDGET[tier] // 30):
        sc[len(xs)] = (d, [ta, tb], rng.choice(short)); xs.append(None)
    traces, rej, refused = judge(drv, scr, sc)
    if refused * 2 > len(sc): raise common.Machinery("%d of %d histories were refused" % (refused, len(sc)))
    best = {}
    for i, rs in rej.items():
        for p, pos, why in rs:
            k = (sc[i][0], why.split("comparison of")[-1][8:50])
            n = sum(map(len, sc[i][1]))
            if k not in best or n < best[k][0]: best[k] = (n, i, pos, why)
    for (d, _), (_, i, pos, why) in sorted(best.items()):
        rep.violation("%s: step %s: %s\n%s\n%s" % (d, pos, why, "\n-- --\n".join(sc[i][1]), sc[i][2]), dict(kind="session", scenario=sc[i], why=why))
    rep.cov.update(histories=len(traces), comparisons=sum(len(t["steps"]) + len(t["fresh"]) for t in traces), refused=refused, per_dialect={d: sum(t["d"] == d for t in traces) for d in sql.DIALECTS})
    rep.samples = [dict(history=[[s["i"], s["j"]] for s in t["steps"]], schemas=t["prints"]) for t in traces[::max(1, len(traces) // 4)][:4]]
    return len(traces)

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        sc = {0: tuple(x["scenario"])}
        traces, rej, _ = judge(common.build_driver(scr), scr, sc)
        for t in traces:
            for s in t["steps"]: print("compare %s %s:\n%s" % (s["i"], s["j"], s["out"]))
        for r in rej.get(0, []): print("REJECT", r)
        if rej.get(0): print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rej.get(0) else 0
    finally: scr.close()
