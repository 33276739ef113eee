"""C10: annotated Go sources built by spec/Generate.tla, given to the real command; what it generates is validated by
spec/GenerateTrace.tla."""
import json, os, random, re, subprocess, concurrent.futures as cf
import common, sql, fakedb

SHAPES = {"quick": [("1 1 2 1", 0, 300), ("3 3 6 5", 900, 900)], "thorough": [("1 1 2 1", 0, 2500), ("1 1 1 2", 0, 1500), ("3 3 6 5", 6000, 6000), ("2 1 12 12", 1500, 1500)]}
QUOTE = {"postgres": '"', "cockroachdb": '"', "mysql": "`", "spanner": "`"}
DEFS = {
 "postgres": ["TEXT NOT NULL", "INTEGER", "BIGINT NOT NULL DEFAULT 0", "TEXT NOT NULL DEFAULT 'a; b'", "VARCHAR(64) DEFAULT '--x'", "TIMESTAMP WITH TIME ZONE NOT NULL DEFAULT now()", "NUMERIC(10, 2)", "BOOLEAN DEFAULT FALSE", "TEXT  UNIQUE", "TEXT NOT NULL DEFAULT 'it''s'", "INT  NOT NULL"],
 "mysql": ["VARCHAR(64) NOT NULL", "INTEGER", "BIGINT NOT NULL DEFAULT 0", "VARCHAR(64) NOT NULL DEFAULT 'a; b'", "DATETIME NOT NULL DEFAULT CURRENT_TIMESTAMP", "DECIMAL(10, 2)", "VARCHAR(9) COMMENT 'it''s'", "ENUM('a', 'b')", "INT  NOT NULL"],
 "spanner": ["STRING(36) NOT NULL", "INT64", "STRING(MAX) NOT NULL DEFAULT ('a; b')", "TIMESTAMP NOT NULL OPTIONS (allow_commit_timestamp = true)", "BOOL DEFAULT (FALSE)", "INT64       NOT NULL"]}
DEFS["cockroachdb"] = ["STRING NOT NULL", "INT8", "BIGINT NOT NULL DEFAULT 0", "TEXT NOT NULL DEFAULT 'a; b'", "TIMESTAMPTZ NOT NULL DEFAULT now()", "DECIMAL(10, 2)", "UUID NOT NULL DEFAULT gen_random_uuid()"]
OPTS = {"postgres": [], "cockroachdb": [], "mysql": ["ENGINE=InnoDB", "DEFAULT CHARSET=utf8mb4", "COMMENT='x; y'"], "spanner": ["INTERLEAVE IN PARENT `Parents` ON DELETE CASCADE", "ROW DELETION POLICY (OLDER_THAN(`At`, INTERVAL 30 DAY))"]}
NAMES = ["users", "orders", "groups", "items", "notes", "books", "authors", "tags", "teams", "rooms"]
COLS = ["id", "name", "email", "age", "note", "order", "group", "created_at", "ref_id", "Table", "c1", "c10"]
FIELDS = ["ID", "Name", "Email", "Age", "Note", "Order", "Group", "CreatedAt", "RefID", "Index", "C1", "Table"]

def canon(text, d):
    """tokens as one text; identifiers by value, quoted or not"""
    return " ".join(t.v if t.k == "q" else t.raw for t in sql.tokenize(text, d))

class Writer:
    """gives an abstract source names, definitions and a layout"""
    def __init__(self, d, rng, files):
        self.d, self.rng, self.q = d, rng, QUOTE[d]
        self.ddl, self.col, self.pk = rng.choice([("ddlctl", "db", "pk"), ("pgddl", "db", "pk"), ("spanddl", "dbtest", "pkey"), ("ddlctl", "json", "pk"), ("my.ddl", "sql", "key")])
        self.other = rng.choice([t for t in ("pgddl", "ddlctl2", "myddl", "xddlctl", "myxddl", "ddl") if t != self.ddl])
        self.n, self.decoy = 0, False
        self.tables = [n + ("" if k == 0 else "_%d" % k) for k in range(6) for n in rng.sample(NAMES, len(NAMES))]
    def fresh(self): self.n += 1; return self.n
    def key(self):
        """the tag before an annotation, in one of the layouts"""
        r = self.rng
        return r.choice(["//", "// ", "//  ", "//\t"]), self.ddl + r.choice(["", "", " "]) + ":" + r.choice(["", " ", "  "])
    def line(self, k, table):
        """-> (content after the comment mark, canonical text)"""
        r, d, q = self.rng, self.d, self.q
        sep = r.choice([" ", ": ", ":", "  ", " : "])
        if k == "table":
            form = r.choice(["", "", "CREATE TABLE ", "CREATE TABLE IF NOT EXISTS ", "create table ", "Create  Table if not exists "])
            name = r.choice([table, q + table + q, "public." + table if d in ("postgres", "cockroachdb") else table])
            return "table" + r.choice(["", "", "s"]) + sep + form + name, canon((form or "CREATE TABLE ") + name, d)
        if k == "index":
            form = r.choice(["", "", "CREATE INDEX ", "CREATE UNIQUE INDEX ", "CREATE INDEX IF NOT EXISTS " if d != "mysql" else "", "create unique  index ", "Create Index "])
            on = "%sidx_%d%s ON %s (%s%s%s)" % (q, self.fresh(), q, table, q, r.choice(COLS), q)
            if form and r.random() < .5: on = on.replace(q, "", 2)
            return "index" + r.choice(["", "", "es"]) + sep + form + on, canon((form or "CREATE INDEX ") + on, d)
        if k == "cons":
            n = self.fresh()
            c = r.choice(["CONSTRAINT c%d CHECK (age >= 0)" % n, "CONSTRAINT c%d CHECK (note <> ': table: x')" % n, "CONSTRAINT u%d FOREIGN KEY (%sref_id%s) REFERENCES %sother%s (%sid%s)" % (n, q, q, q, q, q, q)])
            return "constraint" + r.choice(["", "", "s"]) + sep + c, canon(c, d)
        if k == "opt":
            if not OPTS[d]: return None, None
            c = r.choice(OPTS[d])
            return "option" + r.choice(["", "", "s"]) + sep + c, canon(c, d)
        return r.choice(["", "table:", "note"]), ""       # the tag alone
    def prose(self):
        return self.rng.choice(["// %s holds things.", "//", "// TODO: index the email column of %s", "// note: table users; or 'what", "// See constraint: none", "//go:generate echo %s", "// option: a, b", "// \" ` ' ; -- */",
                                "// %sddl" % self.ddl, "// %s2: table: nope" % self.ddl, "// a %s: table: nope" % self.ddl, "// Deprecated: table: gone"]).replace("%s", "it")
    def comment(self, kinds, table, indent):
        """source lines of a comment and the canonical lines"""
        out, lines = [], []
        r = self.rng
        groups, cur = [], []
        for l in kinds:
            if l["k"] == "gap": groups.append(cur); cur = []
            else: cur.append(l["k"])
        groups.append(cur)
        for gi, g in enumerate(groups):
            if gi: out.append("")
            block = []
            for k in g:
                if k == "prose": block.append((self.prose(), None)); lines.append(dict(k=k, text="")); continue
                if k == "foreign":
                    what = r.choice(["table: zz_%d", "index: zz_%d ON zz (a)", "constraint CHECK (zz_%d > 0)", "option: zz_%d"]) % self.fresh()
                    block.append((r.choice(["//", "// "]) + self.other + r.choice([":", ": "]) + what, None)); lines.append(dict(k=k, text="")); continue
                content, text = self.line(k, table)
                if content is None: continue
                mark, tag = self.key()
                block.append((mark + tag + content, tag + content)); lines.append(dict(k=k, text=text))
            if r.random() < .15 and block and all("*/" not in b for b, _ in block):      # as a block comment
                if len(block) == 1 and r.random() < .5: out.append("/* " + block[0][0].lstrip("/").strip() + " */")
                else: out += ["/*"] + [indent + b.lstrip("/").strip() for b, _ in block] + ["*/"]
            else: out += [b for b, _ in block]
        # a comment that has no lines left does not separate anything
        return [indent + l if l else l for l in out], lines
    def field(self, f, names):
        r = self.rng
        tags = []
        f = dict(f)
        if f["col"] == "name":
            f["coln"] = r.choice([c for c in COLS if c not in names]) if len(names) < len(COLS) else "c_%d" % self.fresh()
            names.append(f["coln"]); tags.append((self.col, f["coln"]))
        else:
            f["coln"] = ""
            if f["col"] == "-": tags.append((self.col, "-"))
        if f["def"] == "def":
            t = r.choice(DEFS[self.d]); tags.append((self.ddl, t)); f["deft"] = canon(t, self.d)
        else:
            f["deft"] = ""
            if f["def"] == "-": tags.append((self.ddl, "-"))
        if f["pk"] != "none": tags.append((self.pk, f["pk"]))
        for k, v in (("db", "decoy"), ("ddlctl", "TEXT DEFAULT 'decoy'"), ("pk", "true"), (self.other, "BYTES"), ("yaml", "y,omitempty")):
            if k not in (self.col, self.ddl, self.pk) and r.random() < .3: tags.append((k, v))
        if r.random() < .3: r.shuffle(tags)
        body = r.choice([" ", " ", "  "]).join('%s:"%s"' % (k, v.replace("\\", "\\\\").replace('"', '\\"')) for k, v in tags)
        fn = [x for x in FIELDS if x not in names]
        pick = lambda: fn.pop(r.randrange(len(fn))) if fn else "F%d" % self.fresh()
        ns = [pick() for _ in f["names"]]
        names += ns
        if f["n"] == 0: decl = r.choice(["%s", "*%s", "pkg.%s", "*pkg.%s", "%s[int]", "%s[int, string]"]) % ns[0]
        else: decl = ", ".join(ns) + " " + r.choice(["string", "int", "*time.Time", "[]byte", "map[string]int", "struct{ A int `db:\"a\" ddlctl:\"TEXT\"` }", "func(a int) error"])
        if body: decl += " " + ("`%s`" % body if r.random() < .85 else json.dumps(body, ensure_ascii=False))
        pre = []
        while r.random() < .3: pre.append(r.choice(["// %s is a field." % ns[0], "// %s: table: zz" % self.ddl, "// a; 'b", "//", "/* block; */"]))
        self.decoy |= any(self.ddl in x for x in pre)
        if r.random() < .1: decl += " // " + r.choice(["tail", self.ddl + " tail"])
        f["names"] = ns
        return pre + [decl], f
    def decl(self, x, table):
        r = self.rng
        after = []
        sname = "".join(p.capitalize() for p in table.split("_")) + ("" if r.random() < .8 else "Row")
        x = dict(x)
        group = x["kind"] in ("struct", "type") and r.random() < .3
        com, lines = self.comment(x["lines"], table, "")
        out = []
        if x["after"]: after, x["after"] = self.comment(x["after"], table, "")
        if x["kind"] == "struct":
            body, fs, names = [], [], []
            for f in x["fields"]:
                b, g = self.field(f, names)
                if r.random() < .2 and body: body.append("")
                body += b; fs.append(g)
            x["fields"] = fs
            st = [sname + r.choice(["", "", "[T any]"]) + " struct {"] + ["\t" + b if b else b for b in body] + ["}"]
        elif x["kind"] == "type": st = [sname + r.choice([" []*User", " int", " map[string]*User", " interface{ F() }", " = User", " func() error"])]
        else: st = ["func F%d() {}" % self.fresh()]
        if x["kind"] == "func": out = com + st
        elif group: out = ["type ("] + com + st + after + ([""] if after else []) + ([] if not after else ["\tZ%d int" % self.fresh()]) + [")"]
        else:
            out = com + ["type " + st[0]] + st[1:] + after
            if r.random() < .08: out = ["func G%d() {" % self.fresh()] + out + ["}"]
        x["name"] = canon("CREATE TABLE " + sname, self.d)
        x["lines"] = lines
        return out, x
    def source(self, files):
        """-> (path -> text, concrete abstract files in the order they are read)"""
        r = self.rng
        good = ["a.go", "b.go", "model.go", "sub/a.go", "sub/deep/z.go", "zz.go", "user_test_data.go", "test.go", "x_test/a.go", "testdata/t.go", "vendor/v/v.go", ".hidden/h.go", "_u.go", "a.pb.go", "a_windows.go", "sub-2/b.go"]
        bad = ["a_test.go", "sub/b_test.go", "c.txt", "d.go.bak", "go", "ago", "a.gox", "sub.go/readme", "_test.go"]
        paths = {}
        g, b = r.sample(good, len(good)), r.sample(bad, len(bad))
        for f in files: paths[b.pop() if f["skip"] else g.pop()] = f
        texts, res = {}, []
        # WalkDir: by name in each directory, a directory at the place of its own name
        for p in sorted(paths, key=lambda p: p.split("/")):
            f = paths[p]
            out, ds = ["package " + r.choice(["main", "model"]), ""], []
            if r.random() < .3: out = ["// a licence; with 'quotes"] + [""] + out
            if r.random() < .3: out += ['import "time"', ""]
            if r.random() < .1: out += [""] * r.choice([85, 990, 9990, 99990])
            if r.random() < .1: out += ["type Plain struct {", "\tA int", "}", ""]
            open_group = False
            for x in f["decls"]:
                o, x = self.decl(x, self.tables.pop(0))
                group = o[0] == "type ("
                if group and open_group: out = out[:-2] + [""] + o[1:]
                else: out += o
                out.append(""); ds.append(x)
                open_group = group and not x["after"]
            text = "\n".join(out) + r.choice(["", "\n"])
            if f["skip"] and r.random() < .3: text += r.choice(["}", "func (", "`", "/*"])
            if r.random() < .08: text = text.replace("\n", "\r\n")
            texts[p] = text
            res.append(dict(skip=f["skip"], decls=ds))
        return texts, res

def read(text, d):
    """the statements of the generated text"""
    ts, out, cur = sql.tokenize(text, d), [], []
    for t in ts:
        if t.raw == ";": out.append(cur); cur = []
        else: cur.append(t)
    if cur: out.append(cur)
    val = lambda xs: " ".join(t.v if t.k == "q" else t.raw for t in xs)
    res = []
    for st in out:
        if not [t.raw.upper() for t in st[:2]] == ["CREATE", "TABLE"]: res.append(dict(k="index", head=val(st), elems=[], tail="")); continue
        i = next((n for n, t in enumerate(st) if t.raw == "("), len(st))
        dep, elems, cur, j = 0, [], [], len(st)
        for n in range(i, len(st)):
            t = st[n]
            if t.raw == "(" and t.k == "o":
                dep += 1
                if dep == 1: continue
            if t.raw == ")" and t.k == "o":
                dep -= 1
                if dep == 0: j = n; break
            if t.raw == "," and dep == 1: elems.append(val(cur)); cur = []
            else: cur.append(t)
        if cur: elems.append(val(cur))
        res.append(dict(k="table", head=val(st[:i]), elems=elems, tail=val(st[j + 1:])))
    return res

def sources(scr, tier, seed):
    out, rng = [], random.Random(seed * 17 + 3)
    def one(x):
        shape, sim, n = x
        f, dc, l, fl = shape.split()
        extra = ["-simulate", "num=%d" % sim, "-depth", "80", "-seed", str(seed)] if sim else []
        o = common.tlc(scr, "Generate", dict(GENERATE_FILES=f, GENERATE_DECLS=dc, GENERATE_LINES=l, GENERATE_FIELDS=fl), workers=1 if sim else 4, extra=extra, name="generate-%s-%d" % (shape.replace(" ", ""), sim))
        return sorted({s.split("|", 1)[1] for s in common.printed(o, "SRC")}), n
    with cf.ThreadPoolExecutor(4) as ex:
        for ss, n in ex.map(one, SHAPES[tier]): out += [json.loads(s) for s in rng.sample(ss, min(n, len(ss)))]
    return out

def runs(scr, binary, env, i, d, w, texts, single, rng):
    """the command under three environments -> (rc, output, same, error)"""
    root = scr.path("g%d" % i, "src", "x"); root = os.path.dirname(root)
    for p, t in texts.items():
        f = os.path.join(root, p); os.makedirs(os.path.dirname(f), exist_ok=True); open(f, "w").write(t)
    src = os.path.join(root, single) if single else root
    if i % 6 == 5:                                 # a file of the directory is a symbolic link
        p = sorted(texts)[i % len(texts)]; f = os.path.join(root, p); g = scr.path("g%d" % i, "elsewhere", "x.txt")
        os.makedirs(os.path.dirname(g), exist_ok=True); os.rename(f, g); os.symlink(g, f)
    if i % 5 == 4:                                 # the source is given as a symbolic link
        l = os.path.join(root, "..", "link" + (".go" if single else "")); os.symlink(src, l); src = l
    seen = []
    for n in range(3):
        dst = os.path.join(root, "..", "out%d" % n)
        e, args = dict(env), ["generate"]
        for k, ek, v, dv in (("--dialect", "DIALECT", d, ""), ("--go-ddl-tag", "GO_DDL_TAG", w.ddl, "ddlctl"), ("--go-column-tag", "GO_COLUMN_TAG", w.col, "db"), ("--go-pk-tag", "GO_PK_TAG", w.pk, "pk")):
            if v == dv and n == 0: continue
            if n == 1: e["DDLCTL_" + ek] = v
            else: args += [k, v]
        if n == 2: e["GOMAXPROCS"] = "1"; os.makedirs(dst)
        try: r = subprocess.run([binary] + args + [src, dst], cwd=root, env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", timeout=60)
        except subprocess.TimeoutExpired: return 99, "", False, "hang"
        f = os.path.join(dst, "ddlctl.gen.sql") if n == 2 else dst
        seen.append((r.returncode, open(f).read() if os.path.exists(f) else None, r.stderr))
    return seen[0][0], seen[0][1] or "", len({(a, b) for a, b, _ in seen}) == 1, seen[0][2]

def build(i, files, seed):
    rng = random.Random("g%d:%d" % (seed, i))
    d = rng.choice(sql.DIALECTS)
    w = Writer(d, rng, files)
    texts, con = w.source(files)
    single, broken = None, False
    read = [p for p in texts if p.endswith(".go") and not p.endswith("_test.go")]
    if read and rng.random() < .04:
        broken = True
        p = rng.choice(read); texts[p] = rng.choice([lambda t: t + "\nfunc (", lambda t: t.replace("package ", "pakkage ", 1), lambda t: t + "\n/* open", lambda t: t + "\ntype X struct {\n\tA int `json:\"a\n"])(texts[p])
    if len(texts) == 1 and not con[0]["skip"] and rng.random() < .6: single = list(texts)[0]
    return dict(id=i, d=d, texts=texts, files=con, single=single, decoy=w.decoy, broken=broken, ddl=w.ddl, col=w.col, pk=w.pk)

class Tags:
    def __init__(self, s): self.ddl, self.col, self.pk = s["ddl"], s["col"], s["pk"]

def judge(scr, scs):
    binary = common.go_build(scr, scr.path("ddlctl"), "./cmd/ddlctl", {})
    drv = common.build_driver(scr)
    env = fakedb.clean_env()
    def one(s): return runs(scr, binary, env, s["id"], s["d"], Tags(s), s["texts"], s["single"], None)
    rs = fakedb.run_many(scs, one, common.NCPU * 2)
    good = [(s, r) for s, r in zip(scs, rs) if r[0] == 0]
    res = common.drive(drv, [dict(id=s["id"], d=s["d"], texts=[r[1]], steps=[]) for s, r in good])
    traces, outs = [], {}
    for s, r in zip(scs, rs):
        ok = s["id"] in res and not res[s["id"]]["panic"] and not res[s["id"]]["hang"] and res[s["id"]]["parsed"][0]["ok"]
        try: out = read(r[1], s["d"]) if r[0] == 0 else []
        except sql.SqlError as e: out = [dict(k="index", head="unreadable: %s" % e, elems=[], tail="")]
        files = [dict(f, decls=[dict(kind=x["kind"], name=x["name"], lines=x["lines"], after=x["after"], fields=[dict(names=f2["names"], col=f2["col"], coln=f2["coln"], deft=f2["deft"], pk=f2["pk"], **{"def": f2["def"]}) for f2 in x["fields"]]) for x in f["decls"]]) for f in s["files"]]
        traces.append(dict(id=s["id"], files=files, dir=not s["single"], decoy=s["decoy"], broken=s["broken"], style="trailing" if s["d"] == "spanner" else "inside", rc=abs(r[0]), out=out, same=r[2], parsed=ok))
        outs[s["id"]] = r
    return traces, common.check_traces(scr, "GenerateTrace", traces), outs

def run(prop, tier, seed, scr, rep):
    srcs = sources(scr, tier, seed)
    scs = [build(i, f, seed) for i, f in enumerate(srcs)]
    traces, rej, outs = judge(scr, scs)
    best = {}
    for i, rs in rej.items():
        for p, pos, why in rs:
            k = re.sub(r"( for|index|table) .*", "", why, flags=re.S)[:60]
            size = sum(map(len, scs[i]["texts"].values()))
            if k not in best or size < best[k][0]: best[k] = (size, i, pos, why)
    for _, (_, i, pos, why) in sorted(best.items()):
        s = scs[i]
        rep.violation("%s (tags %s %s %s): %s\n%s\n-- generated (status %d)\n%s%s" % (s["d"], s["ddl"], s["col"], s["pk"], why, "\n".join("-- %s\n%s" % x for x in s["texts"].items()), outs[i][0], outs[i][1], outs[i][3][-400:]),
                      dict(kind="generate", scenario=s, why=why))
    rep.cov.update(sources=len(traces), files=sum(len(s["texts"]) for s in scs), statements=sum(len(t["out"]) for t in traces), refused=sum(t["rc"] != 0 for t in traces), per_dialect={d: sum(s["d"] == d for s in scs) for d in sql.DIALECTS})
    rep.samples = [dict(texts=s["texts"], generated=outs[s["id"]][1]) for s in scs[::max(1, len(scs) // 3)][:3]]
    return len(traces)

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        traces, rej, outs = judge(scr, [x["scenario"]])
        for p, t in x["scenario"]["texts"].items(): print("-- %s\n%s" % (p, t))
        for r in outs.values(): print("-- generated (status %d)\n%s%s" % (r[0], r[1], r[3][-500:]))
        rs = [r for v in rej.values() for r in v]
        for r in rs: print("REJECT", r)
        if rs: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rs else 0
    finally: scr.close()
