"""Abstract catalogs (from the TLA+ generator) -> concrete schemas -> declaration events + SQL text.

A Schema is the list of declaration events (the meaning); `text()` lays it out in some style.
The layout is checked against the independent reader (sql.read_script) by the caller."""
import random, copy, re
import sql, pools

class Skip(Exception):
    pass

def fn(x):                       # TLA+ prints an empty function as a sequence
    return {} if x == [] else x

class Mapping:
    """names, themes and naming modes shared by all catalogs of one scenario"""
    def __init__(self, d, rng, attrs, plain=False, wide=False, tag=""):
        self.d, self.rng, self.plain, self.wide, self.tag = d, rng, plain, wide, tag
        ts = pools.TABLES[0] if plain else rng.choice(pools.TABLES + pools.XTABLES[d] + (pools.QTABLES if d in ("postgres", "cockroachdb") else []))
        ts = list(ts)
        if not plain and rng.random() < .5: rng.shuffle(ts)
        cs = list(pools.COLS[0] if plain else rng.choice(pools.COLS + pools.XCOLS[d]))
        ix = pools.IDXS[0] if plain else rng.choice(pools.IDXS)
        self.t = dict(zip(["t1", "t2", "t3"], [(n + tag, o) for n, o in ts]))
        self.c = dict(zip(["a", "b", "c", "e"], cs))
        self.i = dict(zip(["i1", "i2", "i3"], [n + tag for n in ix]))
        # indexes have names of their own in MySQL: one may be named like a table
        own = random.Random(repr((self.t, self.c, self.i)))
        if d == "mysql" and not plain and own.random() < .25:
            self.i[own.choice(["i1", "i2", "i3"])] = self.t[own.choice(["t1", "t2", "t3"])][0]
        # a foreign key may name the columns of the key in another order (not in MySQL, where it needs an index in that order)
        self.turned = d != "mysql" and not plain and own.random() < .3
        P = pools.POOLS[d]
        self.theme = {}
        for t in ("t1", "t2", "t3"):
            for c in ("a", "b", "c", "e"):
                th = 0 if plain else rng.randrange(len(P))
                a = attrs.get((t, c), set())
                if d == "mysql":
                    if "ai" in a: th = 0
                    elif "onup" in a: th = 3
                    elif a & {"charset", "collate"}: th = 1
                if d == "spanner" and "opts" in a: th = 3
                th = P[th]
                if wide: th = pools.WIDE[d]
                m = dict(T=list(th["T"]), D=list(th["D"]), X=list(th["X"]))
                if not plain:
                    for k, v in m.items():
                        rng.shuffle(v)
                        if not wide and rng.random() < (.15 if k == "T" else .35): self.twin(v)
                self.theme[t, c] = m
        self.attr = {k: (list(v) if plain else rng.sample(v, len(v))) for k, v in pools.ATTR.items()}
        self.using = list(pools.USING.get(d, []))
        if not plain: rng.shuffle(self.using)
        self.opt = {k: (list(v) if plain else rng.sample(v, len(v))) for k, v in pools.OPTS.items()}
        self.ttl = list(pools.TTL) if plain else rng.sample(pools.TTL, len(pools.TTL))
        if not plain:
            for v in (self.attr["comment"], self.attr["gen"], self.opt["COMMENT"], self.ttl):
                if rng.random() < .4: self.twin(v)
        self.named = {}          # constraint key -> explicit name?
        self.idxin = {}          # index -> declared inside the table?
        self.ine = {}
        self.colpos = {}
        self.optnames = {}
    def twin(self, v):
        """the second value of the list becomes one that is almost the first"""
        n = near(v[0], self.rng)
        if canon(n.replace("{c}", "c").replace("{ts}", "c"), self.d) != canon(v[0].replace("{c}", "c").replace("{ts}", "c"), self.d): v[1] = n
    def col(self, c): return self.c[c][0]
    def tab(self, t): return self.t[t][0]
    def is_named(self, k):
        if k not in self.named: self.named[k] = False if self.plain else self.rng.random() < .5
        return self.named[k]
    def in_table(self, i):
        if self.d not in ("mysql", "cockroachdb"): return False
        if i not in self.idxin: self.idxin[i] = False if self.plain else self.rng.random() < .5
        return self.idxin[i]
    def use(self, ix): return self.using[int(ix["using"][1:]) - 1] if ix["using"] else ""
    def ifnot(self, k):
        if k not in self.ine: self.ine[k] = (not self.plain) and self.d != "mysql" and self.rng.random() < .3
        return self.ine[k]

def near(v, rng):
    """another value that differs from v in one detail: the letter case, a blank or a character of a literal, a digit, or being quoted"""
    def lit(m):
        body = m.group(0)[1:-1]
        i = rng.randrange(len(body) + 1)
        ls = [k for k, ch in enumerate(body) if ch.isascii() and ch.isalpha()]
        if ls and rng.random() < .6:
            k = rng.choice(ls); return "'" + body[:k] + body[k].swapcase() + body[k + 1:] + "'"
        while i < len(body) and (body[i] in "'\\\n" or (i and body[i - 1] in "'\\\n")): i += 1
        return "'" + body[:i] + rng.choice(" x") + body[i:] + "'"
    lits = list(re.finditer(r"'(?:[^']|'')*'", v))
    if lits:
        m = rng.choice(lits)
        return v[:m.start()] + lit(m) + v[m.end():]
    nums = list(re.finditer(r"(?<![\w.\"`{])\d+(?![\w.\"`}])", v))
    if nums:
        m = rng.choice(nums)
        return v[:m.start()] + ("1" + m.group(0) if m.group(0) == "0" else m.group(0) + "0") + v[m.end():]
    return v

def attrs_used(cats):
    used = {}
    for cat in cats:
        for t, tab in fn(cat["tables"]).items():
            for c, col in fn(tab["cols"]).items():
                for k in ("charset", "collate", "onup", "opts"):
                    if col[k]: used.setdefault((t, c), set()).add(k)
                if col["ai"]: used.setdefault((t, c), set()).add("ai")
    return used

def odd(n, d):
    """the name cannot stand unquoted"""
    return not re.fullmatch("[a-z_][a-z0-9_]*" if d in ("postgres", "cockroachdb") else "[A-Za-z_][A-Za-z0-9_]*", n)
def inexpr(n, d):
    q = '"' if d in ("postgres", "cockroachdb") else "`"
    return q + n + q if odd(n, d) else n

def canon(s, d): return sql.canon_expr(sql.tokenize(s, d), d)
def canont(s, d): return sql.canon_type(sql.tokenize(s, d), d)

def words(e, d):
    return sql.words(sql.tokenize(e, d), d)

def concretize(cat, m, rng):
    """-> list of declaration items: events with concrete raw texts under '_' keys"""
    d = m.d
    items = []
    tabs = fn(cat["tables"])
    def refs(t):
        r = {con["ref"] for con in fn(tabs[t]["cons"]).values() if con["kind"] == "FK"} - {t}
        if tabs[t]["il"]["parent"]: r.add(tabs[t]["il"]["parent"])
        return r
    order, left = [], sorted(tabs)
    if not m.plain: rng.shuffle(left)
    while left:
        for t in left:
            if refs(t) <= set(order):
                order.append(t); left.remove(t); break
        else: raise Skip("reference cycle")
    for t in order:
        tab = tabs[t]
        cols = fn(tab["cols"])
        ev = dict(e="CreateTable", t=m.tab(t), tb=sql.base(m.tab(t)), ine=m.ifnot("T" + t), order=[], cols={}, cons=[], opts={}, ttl="", il=dict(parent="", act=""))
        raw = {}
        for c in sorted(cols, key=lambda c: "abce".index(c)):
            a = cols[c]; th = m.theme[t, c]; n = m.col(c)
            rt = th["T"][int(a["type"][1:]) - 1]
            rd = th["D"][(int(a["def"][1:]) - 1) % len(th["D"])] if a["def"] else ""
            if a["ai"] or a["gen"]: rd = ""
            if rd == "NULL" and a["nn"]: rd = ""
            if not m.wide and rt in ("TEXT", "JSON", "MEDIUMTEXT", "LONGTEXT") and d == "mysql" and rd and not rd.startswith("("): rd = ""
            col = sql.newcol()
            col.update(type=canont(rt, d), nn=a["nn"], ai=a["ai"])
            col["def"] = canon(rd, d) if rd else ""
            r = dict(type=rt, **{"def": rd})
            for k in ("charset", "collate", "onup", "comment", "opts"):
                if a[k]:
                    r[k] = m.attr[k][(int(a[k][1:]) - 1) % len(m.attr[k])]
                    col[k] = canon(r[k], d) if k in ("onup", "opts") else r[k]
            if a["gen"]:
                g = m.attr["gen"][int(a["gen"][1:]) - 1]
                r["gen"] = g; e, kind = g.rsplit(" ", 1)
                col["gen"] = canon(e, d) + " " + kind
            # (a NOT VISIBLE VIRTUAL column is taken for the shard column of a hash-sharded index and never dropped)
            col["vis"] = "" if "VIRTUAL" in col["gen"] else a["vis"]
            ev["order"].append(n); ev["cols"][n] = col; raw[n] = r
        names = set()
        for k in sorted(fn(tab["cons"])):
            con = tab["cons"][k]
            c = sql.newcons(con["kind"], [m.col(x) for x in con["cols"]])
            c["dirs"] = list(con["dirs"])
            c["on"] = [] if d == "spanner" else list(con["on"])
            if len(c["on"]) > 1 and not m.plain: c["_on"] = m.rng.sample(c["on"], len(c["on"]))
            if d == "postgres": c["dirs"] = ["ASC"] * len(c["cols"])
            explicit = m.is_named(k) and not (con["kind"] == "PK" and d in ("mysql", "spanner"))
            if con["kind"] == "CK":
                x = con["words"][0]
                e = m.theme[t, x]["X"][(int(con["expr"][1:]) - 1) % len(m.theme[t, x]["X"])].replace("{c}", inexpr(m.col(x), d))
                c["_expr"] = e; c["expr"] = canon(e, d); c["words"] = words(e, d)
                if not explicit and d != "spanner" and m.rng.random() < .5:
                    c["inline"] = True; c["cols"] = [m.col(x)]; c["dirs"] = ["ASC"]
            if con["kind"] == "FK":
                c["ref"] = m.tab(con["ref"]); c["refcols"] = [m.col(x) for x in con["refcols"]]
                if m.turned: c["cols"].reverse(); c["refcols"].reverse()
            if explicit: c["name"] = ev["tb"] + k[2:] if ev["tb"].isidentifier() and not m.t[t][1] else "x" + k + m.tag
            dn = default_name(d, ev["tb"], c) if not c["name"] else c["name"]
            if dn in names:
                if con["kind"] == "CK" and not c["name"]:      # a second unnamed check: t_check1, t_check2, ..
                    j = 1
                    while dn + str(j) in names: j += 1
                    dn = dn + str(j)
                else: c["name"] = dn = "x" + k + m.tag
            names.add(dn)
            ev["cons"].append(c)
        for i, ix in sorted(fn(cat["idx"]).items()):
            if ix["t"] == t and m.in_table(i):
                c = sql.newcons("UQ" if ix["uq"] else "IX", [m.col(x) for x in ix["cols"]], m.i[i])
                c["dirs"] = list(ix["dirs"])
                c["_using"] = m.use(ix); c["using"] = canon(c["_using"], d)
                ev["cons"].append(c)
        if not m.plain: rng.shuffle(ev["cons"])
        for k, v in sorted(fn(tab["opts"]).items()):
            ev["opts"][k] = m.opt[k][int(v[1:]) - 1]
        if tab["ttl"]:
            e = m.ttl[int(tab["ttl"][1:]) - 1].replace("{ts}", inexpr(m.col("a"), d))
            ev["_ttl"] = e; ev["ttl"] = canon(e, d)
        if tab["il"]["parent"]: ev["il"] = dict(parent=m.tab(tab["il"]["parent"]), act=tab["il"]["act"])
        if d == "spanner":                              # PRIMARY KEY follows the column list
            ev["cons"].sort(key=lambda c: c["kind"] == "PK")
        ev["_raw"] = raw
        items.append(ev)
    for i, ix in sorted(fn(cat["idx"]).items()):
        if m.in_table(i): continue
        ev = dict(e="CreateIndex", n=m.i[i], t=m.tab(ix["t"]), uq=ix["uq"], cols=[m.col(x) for x in ix["cols"]], dirs=["ASC"] * len(ix["cols"]) if d == "postgres" else list(ix["dirs"]), using=canon(m.use(ix), d), _using=m.use(ix), ine=m.ifnot("I" + i))
        lo = 1 + next(k for k, x in enumerate(items) if x["e"] == "CreateTable" and x["t"] == ev["t"])
        items.insert(len(items) if m.plain else rng.randint(lo, len(items)), ev)
    return items

def default_name(d, tb, c):
    if c["kind"] == "PK": return "PRIMARY" if d in ("mysql", "spanner") else tb + "_pkey"
    if c["kind"] == "FK": return tb + "_" + "_".join(c["cols"]) + "_fkey"
    if c["kind"] == "UQ": return tb + "_unique_" + "_".join(c["cols"])
    if c["kind"] == "CK": return tb + "_" + "_".join(c["cols"]) + "_check" if c["inline"] else tb + ("_check" if d in ("postgres", "cockroachdb") else "_chk")
    return tb + "_" + "_".join(c["cols"]) + "_idx"

def events(items):
    """declaration events only (private keys removed)"""
    out = []
    for it in items:
        e = {k: v for k, v in it.items() if not k.startswith("_")}
        if "cons" in e: e["cons"] = [{k: v for k, v in c.items() if not k.startswith("_")} for c in e["cons"]]
        out.append(e)
    return copy.deepcopy(out)

# ------------------------------------------------------------------ layout
MUSTQ = {"order", "group", "user", "select", "table", "index", "public"}
RESERVED = {"key", "primary", "unique", "check", "constraint", "comment", "options"} | MUSTQ

class Style:
    """how a schema is written; rng None = the plain style"""
    def __init__(self, d, rng=None, case=None, ws=0.0, comments=0.0, quote=0.0, inline=0.0, syn=0.0, null=0.0, semi=True, asc=0.0):
        self.d, self.rng, self.cols = d, rng, ()
        self.case, self.ws, self.comments, self.quote, self.inline, self.syn, self.null, self.semi, self.asc = case, ws, comments, quote, inline, syn, null, semi, asc
    @staticmethod
    def random(d, rng):
        return Style(d, rng, case=rng.choice([None, "lower", "mixed"]), ws=rng.choice([0, .2, .5]), comments=rng.choice([0, .1, .3]),
                     quote=rng.choice([0, .5, 1]), inline=rng.choice([0, .5, 1]), syn=rng.choice([0, .5]), null=rng.choice([0, .3]), semi=rng.random() < .8, asc=0 if d == "postgres" else rng.choice([0, .3]))
    def p(self, x): return self.rng is not None and self.rng.random() < x
    def kw(self, w):
        if self.case == "lower": return w.lower()
        if self.case == "mixed": return "".join(c.lower() if self.rng.random() < .5 else c for c in w)
        return w
    def id(self, n):
        q = '"' if self.d in ("postgres", "cockroachdb") else "`"
        def one(x): return q + x + q if x in RESERVED or odd(x, self.d) or self.p(self.quote) else x
        if "." in n: return q + n + q if self.p(self.quote) else n       # the tool quotes the qualified name as a whole
        return one(n)
    def gap(self):
        s = " "
        if self.p(self.ws): s = self.rng.choice(["  ", "\n", "\t", "\n    ", " \r\n "])
        if self.p(self.comments): s += self.rng.choice(["-- note", "-- it's; a \"b\" `c`", "--", "-- DROP TABLE x;", "---- ("]) + "\n"
        return s

TYPE_SPELL = {
 "postgres": {"INTEGER": ["INTEGER"], "TIMESTAMP WITH TIME ZONE": ["TIMESTAMP WITH TIME ZONE"]},
}
EXPRKW = sql.EXPRKW
def relay(toks, st):
    """the same tokens with keywords in another case and column names quoted or not"""
    import copy
    q = '"' if st.d in ("postgres", "cockroachdb") else "`"
    for k, t in enumerate(toks):
        if t.k != "w": continue
        raw = t.raw
        call = k + 1 < len(toks) and toks[k + 1].raw == "("
        if t.raw.upper() in EXPRKW: raw = st.kw(t.raw)
        elif t.raw in st.cols and not call and st.p(st.quote): raw = q + t.raw + q
        if raw != t.raw:
            toks[k] = t = copy.copy(t); t.end = t.pos + len(t.raw); t.raw = raw
    return toks

def layout_tokens(toks, st):
    """re-lay an expression: same tokens, other gaps"""
    out = ""
    for t in toks: t.end = t.pos + len(t.raw)
    toks = relay(toks, st)
    for k, t in enumerate(toks):
        if k:
            prev = toks[k - 1]
            glue = t.raw in ("(", ")", ",", "::", ":::") or prev.raw in ("(", "::", ":::")
            wide = st.p(st.ws * .3)
            if t.raw == "(" and prev.k in ("w",) and not wide: out += "" if t.pos == prev.end else " "
            elif prev.raw == "(" or t.raw in (")", ","): out += " " if wide else ""
            elif glue: out += "" 
            elif t.pos == prev.end and not (t.k == "w" and prev.k == "w"): out += ""
            else: out += st.gap() if wide else " "
        out += t.raw
    return out

class W:
    def __init__(self, st): self.st, self.s = st, ""
    def kw(self, *ws):
        for w in ws:
            if w.isupper() or "_" in w: self.put(self.st.kw(w))
            else: self.put(w)
        return self
    def put(self, x):
        self.s += (self.st.gap() if self.s and not self.s.endswith("(") else (self.st.gap() if self.s and self.st.p(self.st.ws) else "")) + x
        return self
    def id(self, n): return self.put(self.st.id(n))
    def expr(self, e): return self.put(layout_tokens(sql.tokenize(e, self.st.d), self.st))
    def punct(self, x):
        self.s += (self.st.gap() if self.st.p(self.st.ws) else "") + x
        return self

def keylist(w, cols, dirs):
    w.punct("(") if w.st.p(.5) else w.put("(")
    for k, c in enumerate(cols):
        if k: w.punct(",")
        w.id(c)
        if dirs[k] == "DESC": w.kw("DESC")
        elif w.st.p(w.st.asc): w.kw("ASC")
    w.punct(")")

def plainlist(w, cols):
    w.punct("(") if w.st.p(.5) else w.put("(")
    for k, c in enumerate(cols):
        if k: w.punct(",")
        w.id(c)
    w.punct(")")

def fk_tail(w, c):
    w.kw("REFERENCES").id(c["ref"])
    plainlist(w, c["refcols"])
    for o in c.get("_on", c["on"]): w.kw("ON", *o.split())

def constraint(w, c, st):
    d = st.d
    if c["kind"] == "IX" or (c["kind"] == "UQ" and d == "mysql") or (c["kind"] == "UQ" and d == "cockroachdb" and c["name"]):
        if c["kind"] == "UQ": w.kw("UNIQUE"); w.kw(("KEY" if d == "mysql" else "INDEX"))
        else: w.kw("KEY" if d == "mysql" else "INDEX")
        w.id(c["name"]); keylist(w, c["cols"], c["dirs"])
        if c.get("_using"): w.expr(c["_using"])
        return
    if c["name"]: w.kw("CONSTRAINT").id(c["name"])
    if c["kind"] == "PK": w.kw("PRIMARY", "KEY"); keylist(w, c["cols"], c["dirs"])
    elif c["kind"] == "UQ": w.kw("UNIQUE"); keylist(w, c["cols"], c["dirs"])
    elif c["kind"] == "FK": w.kw("FOREIGN", "KEY"); plainlist(w, c["cols"]); fk_tail(w, c)
    elif c["kind"] == "CK": w.kw("CHECK"); w.expr(c["_expr"])

def inlineable(c, d):
    if c["inline"]: return True
    if c["name"] or len(c["cols"]) != 1 or c["dirs"] != ["ASC"] or d == "spanner": return False
    return c["kind"] in ("PK", "UQ", "FK")

def column(w, n, col, raw, cons, st):
    d = st.d
    w.id(n)
    w.put(layout_tokens(sql.tokenize(raw["type"], d), st) if st.case is None else st.kw(raw["type"]) if "'" not in raw["type"] else raw["type"])
    if d == "mysql":
        if col["charset"]: w.kw("CHARACTER", "SET").put(raw["charset"])
        if col["collate"]: w.kw("COLLATE").put(raw["collate"])
    def nullity():
        if col["nn"]: w.kw("NOT", "NULL")
        elif st.p(st.null) and raw["def"] != "": w.kw("NULL") if d == "mysql" or True else None
    nfirst = not st.p(.3) or d == "spanner"
    if nfirst and col["nn"]: w.kw("NOT", "NULL")
    elif not col["nn"] and d in ("postgres", "cockroachdb", "mysql") and st.p(st.null): w.kw("NULL")
    if col["ai"]: w.kw("AUTO_INCREMENT")
    if raw["def"]:
        w.kw("DEFAULT"); w.expr(raw["def"])
    if col["vis"]: w.kw("NOT", "VISIBLE")
    if col["gen"]: w.kw("AS").expr(raw["gen"])
    if col["onup"]: w.kw("ON", "UPDATE").put(raw["onup"])
    if not nfirst and col["nn"]: w.kw("NOT", "NULL")
    if d == "spanner" and col["opts"]: w.kw("OPTIONS").expr(raw["opts"])
    for c in cons:
        if c["kind"] == "PK": w.kw("PRIMARY", "KEY")
        elif c["kind"] == "UQ": w.kw("UNIQUE")
        elif c["kind"] == "FK": fk_tail(w, c)
        elif c["kind"] == "CK": w.kw("CHECK").expr(c["_expr"])
    if d == "mysql" and col["comment"]: w.kw("COMMENT").put(raw["comment"])

def statement(it, st):
    d = st.d
    w = W(st)
    st.cols = ()
    if it["e"] == "CreateIndex":
        w.kw("CREATE")
        if it["uq"]: w.kw("UNIQUE")
        w.kw("INDEX")
        if it["ine"]: w.kw("IF", "NOT", "EXISTS")
        w.id(it["n"]).kw("ON").id(it["t"])
        if d == "postgres" and it.get("_using"): w.expr(it["_using"])
        elif d == "postgres" and st.p(st.syn): w.kw("USING").put("btree")
        keylist(w, it["cols"], it["dirs"])
        if d == "cockroachdb" and it.get("_using"): w.expr(it["_using"])
        return w.s
    w.kw("CREATE", "TABLE")
    if it["ine"]: w.kw("IF", "NOT", "EXISTS")
    w.id(it["t"]).put("(")
    st.cols = set(it["order"])
    # which constraints are written on their column
    perc, table = {}, []
    for c in it["cons"]:
        if c["inline"] or (inlineable(c, d) and st.p(st.inline)): perc.setdefault(c["cols"][0], []).append(c)
        else: table.append(c)
    after = []
    if d == "spanner":
        after = [c for c in table if c["kind"] == "PK"]; table = [c for c in table if c["kind"] != "PK"]
    first = True
    for n in it["order"]:
        if not first: w.punct(",")
        first = False
        w.s += "\n    " if not st.ws else ""
        column(w, n, it["cols"][n], it["_raw"][n], perc.get(n, []), st)
    for c in table:
        w.punct(","); constraint(w, c, st)
    w.punct(")")
    if d == "mysql":
        for n, (k, v) in enumerate(it["opts"].items()):
            if n and st.rng is not None and st.p(.2): w.punct(",")
            if k == "CHARSET": w.kw("DEFAULT", "CHARSET")
            else: w.kw(k)
            w.s += "=" if st.p(.7) or st.rng is None else " = "
            w.s += v
    if d == "spanner":
        for c in after: w.kw("PRIMARY", "KEY"); keylist(w, c["cols"], c["dirs"])
        if it["il"]["parent"]:
            w.punct(",").kw("INTERLEAVE", "IN", "PARENT").id(it["il"]["parent"])
            if it["il"]["act"]: w.kw("ON", "DELETE", *it["il"]["act"].split())
        if it["ttl"]: w.punct(",").kw("ROW", "DELETION", "POLICY").expr(it["_ttl"])
    return w.s

def text(items, st):
    out = []
    for it in items: out.append(statement(it, st))
    s = ";\n".join(out)
    if st.semi or st.rng is None: s += ";\n"
    return s
