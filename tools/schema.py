"""Scenarios over schemas: shared by the checks of parse / print / compare (C01 C02 C03 C04 C05 C13)."""
import json, random, zlib, concurrent.futures as cf
import common, render, sql

BASES = ("1", "2", "3", "4", "5", "6", "7")

def catalogs(scr, tier, seed, dialects=sql.DIALECTS, depth2=None):
    """dialect -> base -> [(edits, abstract catalog)]"""
    jobs = []  # (dialect, base, depth, simulated evolutions)
    for d in dialects:
        for b in BASES:
            if tier == "thorough": jobs += [(d, b, 2, 0), (d, b, 7, 150)]
            else: jobs += [(d, b, 1, 0), (d, b, 5, 12)]
    out = {d: {b: [] for b in BASES} for d in dialects}
    with cf.ThreadPoolExecutor(common.NCPU) as ex:
        for (d, b, _, _), cats in zip(jobs, ex.map(lambda j: common.gen_cats(scr, j[0], j[1], j[2], j[3], seed), jobs)):
            out[d][b] += cats
    return out

def align(a, b):
    """the tool knows no statement that changes how a column is computed or shown (known finding
    cockroachdb-computed-column); compared schemas agree on that"""
    b = json.loads(json.dumps(b))
    ta = render.fn(a["tables"])
    for t, tab in render.fn(b["tables"]).items():
        for c, col in render.fn(tab["cols"]).items():
            o = render.fn(render.fn(ta.get(t, {"cols": {}})["cols"])).get(c)
            if o is not None: col["gen"], col["vis"] = o["gen"], o["vis"]
    return b

def kinds(a, b):
    """the kinds of edit between two abstract catalogs"""
    k = set()
    fn = render.fn
    ta, tb = fn(a["tables"]), fn(b["tables"])
    if set(tb) - set(ta): k.add("t+")
    if set(ta) - set(tb): k.add("t-")
    for t in set(ta) & set(tb):
        x, y = ta[t], tb[t]
        cx, cy = fn(x["cols"]), fn(y["cols"])
        if set(cy) - set(cx): k.add("c+")
        if set(cx) - set(cy): k.add("c-")
        for c in set(cx) & set(cy):
            for f in cx[c]:
                if cx[c][f] != cy[c][f]: k.add("c:" + f)
        kx, ky = fn(x["cons"]), fn(y["cons"])
        for n in set(kx) | set(ky):
            if kx.get(n) != ky.get(n): k.add((kx.get(n) or ky.get(n))["kind"] + ("+" if n not in kx else "-" if n not in ky else "~"))
        for f in ("opts", "ttl", "il"):
            if fn(x[f]) != fn(y[f]): k.add(f)
    ix, iy = fn(a["idx"]), fn(b["idx"])
    for n in set(ix) | set(iy):
        if ix.get(n) != iy.get(n): k.add("i" + ("+" if n not in ix else "-" if n not in iy else "~"))
    return frozenset(k)

def spread(rng, base, cats, n):
    """n catalogs, spread evenly over the combinations of edit kinds"""
    groups = {}
    for c in cats: groups.setdefault(kinds(base, c), []).append(c)
    gs = [groups[k] for k in sorted(groups, key=lambda k: sorted(k))]
    for g in gs: rng.shuffle(g)
    rng.shuffle(gs)
    out, i = [], 0
    while len(out) < min(n, len(cats)):
        for g in gs:
            if i < len(g): out.append(g[i])
            if len(out) >= n: break
        i += 1
    return out

def pairs(cats, seed, budget):
    """[(dialect, catalog A, catalog B, scenario seed)]: base<->every single edit, and samples of longer evolutions"""
    rng = random.Random(seed)
    res = []
    for d, bases in cats.items():
        for b, lst in bases.items():
            base = lst[0][1]
            one = [c for n, c in lst if n == 1]
            two = [c for n, c in lst if n == 2]
            far = [c for n, c in lst if n > 2]
            for c in one * (3 if b == "6" else 1):          # (each time with other names and values)
                res.append((d, base, c)); res.append((d, c, base))
            for c in spread(rng, base, two, budget // 4):
                res.append((d, base, c) if rng.random() < .5 else (d, c, base))
            sf, s2 = spread(rng, base, far, budget // 4), spread(rng, base, two, budget // 4)
            for _ in range(budget // 8):
                res.append((d, rng.choice(sf), rng.choice(sf)))
                res.append((d, rng.choice(s2), rng.choice(s2 + one)))
        # across bases
        allc = [c for lst in bases.values() for _, c in lst]
        for _ in range(budget // 8):
            res.append((d, rng.choice(allc), rng.choice(allc)))
    return [(d, a, align(a, b) if d == "cockroachdb" else b, "%d:%d" % (seed, i)) for i, (d, a, b) in enumerate(res)]

def _inst(x):
    i, (d, a, b, sd) = x
    r = instantiate(d, a, b, sd)
    if r is None: return i, None
    selfcheck(r[0], r[2], d); selfcheck(r[1], r[3], d)
    return i, r

def instantiate_all(ps):
    """index -> (items A, items B, text A, text B); pairs without a concrete form are left out"""
    return {i: r for i, r in common.pmap(_inst, list(enumerate(ps))) if r is not None}

def instantiate(d, a, b, sd, style=True, plain=False, wide=False):
    """-> (items of A, items of B, text A, text B) or None when the pair has no concrete form"""
    rng = random.Random(sd)
    m = render.Mapping(d, rng, render.attrs_used([x for x in (a, b) if x is not None]), plain, wide)
    try:
        ia = render.concretize(a, m, rng)
        ib = render.concretize(b, m, rng) if b is not None else []
    except render.Skip:
        return None
    sa = render.Style.random(d, rng) if style and rng.random() < .7 else render.Style(d)
    sb = render.Style.random(d, rng) if style and rng.random() < .7 else render.Style(d)
    return ia, ib, render.text(ia, sa), render.text(ib, sb)

def instantiate_many(d, cats, sd, wide=False):
    """-> [(items, text)] of several catalogs over one choice of names and values, or None"""
    rng = random.Random(sd)
    m = render.Mapping(d, rng, render.attrs_used(cats), False, wide)
    try: its = [render.concretize(c, m, rng) for c in cats]
    except render.Skip: return None
    return [(x, render.text(x, render.Style.random(d, rng) if rng.random() < .7 else render.Style(d))) for x in its]

def crowd(d, ps, sd, fat):
    """many pairs of catalogs as one pair of schemas: their tables side by side, or (fat) the columns, constraints and
    indexes of their first tables in one table -> (items A, items B, text A, text B) or None"""
    rng = random.Random(sd)
    A, B, first = [], [], None
    for n, (a, b) in enumerate(ps):
        m = render.Mapping(d, rng, render.attrs_used([a, b]), False, False, "_%d" % n)
        if fat:
            if first is None: first = m.t["t1"]
            m.t["t1"] = first
            if n: m.c = {k: (c + "_%d" % n, q) for k, (c, q) in m.c.items()}
        try: ia, ib = render.concretize(a, m, rng), render.concretize(b, m, rng)
        except render.Skip: continue
        if not fat: A.append(ia); B.append(ib); continue
        ia, ib = fatten(ia, first[0], n), fatten(ib, first[0], n)
        if ia and ib and ia[0] is not None and ib[0] is not None: A.append(ia); B.append(ib)
    if len(A) < 2: return None
    out = []
    for parts in (A, B):
        if fat:
            it = parts[0][0]
            for t, *_ in parts[1:]:
                it["order"] += t["order"]; it["cols"].update(t["cols"]); it["_raw"].update(t["_raw"]); it["cons"] += t["cons"]
            if d == "spanner": it["cons"].sort(key=lambda c: c["kind"] == "PK")
            out.append([it] + [x for q in parts for x in q[1:]])
        else:
            left, items = [list(q) for q in parts if q], []
            while left:
                q = rng.choice(left); items.append(q.pop(0))
                left = [x for x in left if x]
            out.append(items)
    st = lambda: render.Style.random(d, rng) if rng.random() < .7 else render.Style(d)
    ta, tb = render.text(out[0], st()), render.text(out[1], st())
    selfcheck(out[0], ta, d); selfcheck(out[1], tb, d)
    return out[0], out[1], ta, tb

def fatten(items, t, n):
    """the table t of the items and its indexes, without what another table or key is needed for"""
    tab = next((i for i in items if i["e"] == "CreateTable" and i["t"] == t), None)
    if tab is None: return None
    cons = []
    for c in tab["cons"]:
        if c["kind"] == "FK" or (c["kind"] == "PK" and n): continue
        if c["kind"] == "CK" and not c["name"] and not c["inline"] or c["kind"] == "CK" and c["name"]:
            c["name"] = "k%d_%08x" % (n, zlib.crc32((c["expr"] if not c["name"] else c["name"]).encode()))
        elif c["name"] and n and c["kind"] not in ("IX",) and not c["name"].endswith("_%d" % n): c["name"] += "_%d" % n
        cons.append(c)
    names = [c["name"] for c in cons if c["name"]]
    if len(names) != len(set(names)): return None
    tab["cons"], tab["il"] = cons, dict(parent="", act="")
    if n:
        tab["opts"], tab["ttl"] = {}, ""
        for c in tab["cols"].values(): c["ai"] = False
    return [tab] + [i for i in items if i["e"] == "CreateIndex" and i["t"] == t]

def _crowd(x):
    i, (d, ps, sd, fat) = x
    return i, crowd(d, ps, sd, fat)

def crowds(cats, seed, budget):
    """[(dialect, items A, items B, text A, text B)]: schemas with many tables, and with one large table"""
    rng = random.Random(seed * 41 + 7)
    xs = []
    for d, bases in cats.items():
        for n in range(budget):
            ps = []
            for _ in range(rng.randint(3, 7) if n % 2 == 0 else rng.randint(5, 16)):
                lst = [c for _, c in bases[rng.choice(list(bases))]]
                a = rng.choice(lst); b = a if rng.random() < .4 else rng.choice(lst)
                ps.append((a, align(a, b) if d == "cockroachdb" else b))
            xs.append((d, ps, "cr%d:%d" % (seed, len(xs)), n % 2 == 1))
    return [(xs[i][0], *r) for i, r in common.pmap(_crowd, list(enumerate(xs))) if r is not None]

def normal(evs):
    """declaration events modulo constraint order and place (for checking the renderer against the reader)"""
    r = []
    for e in evs:
        e = {k: v for k, v in e.items() if k != "stmt"}
        if "cons" in e:
            cs = []
            for c in e["cons"]:
                c = dict(c)
                if c["kind"] != "CK": c["inline"] = False
                elif not c["inline"]: c["cols"] = []; c["dirs"] = []
                cs.append(c)
            e["cons"] = sorted(cs, key=lambda c: json.dumps(c, sort_keys=True))
        r.append(e)
    return r

def selfcheck(items, text, d):
    if normal(sql.read_script(text, d)) != normal(render.events(items)):
        a, b = normal(sql.read_script(text, d)), normal(render.events(items))
        raise common.Machinery("renderer and reader disagree on\n%s\n%s" % (text, [(x, y) for x, y in zip(a, b) if x != y][:1] or (len(a), len(b))))
