"""C12: command lines of spec/Command.tla run on the real command, validated by spec/CommandTrace.tla; and differences
between schemas that come from files, from annotated sources and from databases, executed as steps of spec/Catalog.tla."""
import json, os, random, re
import common, schema, render, sql, fakedb, showdb, c_show
from c_apply import DSN, DRIVER

THREADS = 48
WORLDS = {"quick": 24, "thorough": 120}
RUNS = {"quick": 1500, "thorough": 12000}
PAIRS = {"quick": 60, "thorough": 900}            # pairs of schemas per dialect
CLASSES = ("std", "x", "y")
TYPES = {d: ("INTEGER", "BIGINT", "SMALLINT") for d in sql.DIALECTS}
TYPES["spanner"] = ("INT64", "FLOAT64", "BOOL")
STD = dict(col="db", ddl="ddlctl", pk="pk")
OPTION = dict(dialect="--dialect", lang="--lang", col="--go-column-tag", ddl="--go-ddl-tag", pk="--go-pk-tag", auto="--auto-approve")
ENV = dict(dialect="DIALECT", lang="LANGUAGE", col="GO_COLUMN_TAG", ddl="GO_DDL_TAG", pk="GO_PK_TAG", auto="AUTO_APPROVE")

def create(d, name, cols, key, q=""):
    body = ", ".join("%s%s%s %s NOT NULL" % (q, n, q, t) for n, t in cols)
    k = "PRIMARY KEY (%s%s%s)" % (q, key, q)
    return "CREATE TABLE %s (%s) %s" % (name, body, k) if d == "spanner" else "CREATE TABLE %s (%s, %s)" % (name, body, k)

class World:
    """files, sources and databases, each holding another schema; side 0 and 1 are the two arguments of a comparison"""
    def __init__(self, n, seed, catpool):
        r = self.rng = random.Random("w%d:%d" % (seed, n))
        self.n = n
        self.d = sql.DIALECTS[n % 4]
        self.e = r.choice([x for x in sql.DIALECTS if x != self.d])
        pool = ["json", "sql", "my.ddl", "pgddl", "column", "key", "yaml", "spanddl", "dbx", "ddl", "xpk", "pkx", "gorm", "ddlctl2"]
        r.shuffle(pool)
        self.tags = {s: dict(std=STD[s], x=pool.pop(), y=pool.pop()) for s in STD}
        if r.random() < .3:                        # values that are usual for another setting
            self.tags["col"]["y"], self.tags["ddl"]["y"] = r.choice([("ddl", "db"), ("json", "sql")])
            if len({v for t in self.tags.values() for v in t.values()}) < 9: self.tags["col"]["y"], self.tags["ddl"]["y"] = "c", "d"
        T = TYPES[self.d]
        self.ddlt = dict(zip(CLASSES, r.sample(T, 3)))
        self.common = "shared%d" % n
        self.files, self.arg = {}, {}
        names = ["schema.sql", "from", "my schema.sql", "sub/to.sql", "root@tcp(db:3306)/app", "dir.go/x.sql", "ddl.txt", "a=b.sql", ".hidden.sql", "postgres:/db", "types.go", "z.sql.go"]
        dirs = ["model", "models/sub", "model.sql", "a b", "src.d", "host=db user=u"]
        r.shuffle(names); r.shuffle(dirs)
        for side in (0, 1):
            f = names.pop(); self.files[f] = self.filetext(side); self.arg["file", side] = f
            b = names.pop(); self.files[b] = r.choice(["CREATE TABLE (", "CREATE TABLE t (id", self.gosource(side) + "\nfunc (", "SELECT 1", "\0\1"]); self.arg["badfile", side] = b
            g = dirs.pop(); self.files[g + "/m%d.go" % side] = self.gosource(side); self.arg["dir", side] = g
            if r.random() < .5: self.files[g + "/m_test.go"] = "package broken ("
            if r.random() < .5: self.files[g + "/schema.sql"] = "CREATE TABLE not_read (id INT)"
            h = dirs.pop(); self.files[h + "/m.go"] = r.choice([self.gosource(side) + "\nfunc (", "pakkage x"]); self.arg["baddir", side] = h
            self.arg["gofile", side] = g + "/m%d.go" % side
            self.arg["missing", side] = r.choice(["nosuch%d.sql", "./nosuch%d", "no/such%d.go", "postgres://u@nowhere:5432/app%d"]) % side
            self.arg["dsn", side] = "%s" % r.choice([x for l in DSN.values() for x in l]) + ["", "#2"][side]
        # what the databases hold, as each dialect sees them
        self.items = {}
        for side in (0, 1):
            for x in {self.d, self.e}:
                for k in range(50):
                    y = c_show.build((x, r.choice(catpool[x]), "w%d:%d:%d:%s" % (n, side, k, x)))
                    if y is not None and len(y[1]) >= 2: break
                else: raise common.Machinery("no schema for a database")
                self.items[side, x] = y[1]
    def filetext(self, side):
        T = TYPES[self.d]
        st = [create(self.d, self.common, [("id", T[0])] + [("f%d" % side, T[1])], "id"), create(self.d, "file%d" % side, [("id", T[0]), ("v", T[2])], "id")]
        return ";\n".join(st) + self.rng.choice([";\n", "", ";"])
    def gosource(self, side):
        L = ["package model", ""]
        for k, nm in enumerate(("T", "U")):
            L += ["// %s%d is a type." % (nm, side), "//"] + ["// %s: table: %s" % (self.tags["ddl"][c], self.table(side, k, c)) for c in self.rng.sample(CLASSES, 3)] + ["type %s%d struct {" % (nm, side)]
            for i in range(3):
                tag = ['%s:"%s"' % (self.tags["col"][c], self.column(side, i, c)) for c in CLASSES] + ['%s:"%s NOT NULL"' % (self.tags["ddl"][c], self.ddlt[c]) for c in CLASSES]
                tag += ['%s:"true"' % self.tags["pk"][c] for j, c in enumerate(CLASSES) if i == j]
                self.rng.shuffle(tag)
                L.append("\tF%d int `%s`" % (i, " ".join(tag)))
            L += ["}", ""]
        return "\n".join(L)
    def table(self, side, k, c): return "%s_%s" % (["tt", "go%d" % side][k], c)
    def column(self, side, i, c): return "f%d_%s%s" % (i, c, "ab"[side] if i else "")
    def generated(self, side, x, key):
        """the statements that the source stands for, as the generator of dialect x writes them"""
        q = '"' if x in ("postgres", "cockroachdb") else "`"
        return ";\n".join(create(x, self.table(side, k, key["ddl"]), [(self.column(side, i, key["col"]), self.ddlt[key["ddl"]]) for i in range(3)],
                                 self.column(side, CLASSES.index(key["pk"]), key["col"]), q) for k in (0, 1)) + ";\n"
    def write(self, root):
        for p, t in self.files.items():
            f = os.path.join(root, p); os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t)
        for side in (0, 1): os.makedirs(os.path.join(root, self.arg["dir", side], "empty"), exist_ok=True)
        self.alias = {}                            # the same things under a symbolic link
        for (k, side), a in self.arg.items():
            if k in ("missing", "dsn"): continue
            l = self.alias[k, side] = "links/%s%d/%s" % (k, side, os.path.basename(a))
            f = os.path.join(root, l); os.makedirs(os.path.dirname(f), exist_ok=True)
            if not os.path.lexists(f): os.symlink(os.path.join(root, a) if self.n % 2 else os.path.relpath(os.path.join(root, a), os.path.dirname(f)), f)

class Db(fakedb.Scenario):
    """the databases of a world; a data source without a database cannot be opened"""
    def __init__(self, id, w):
        super().__init__(id, w.d)
        self.w, self.a = w, {}
    def side(self, dsn): return next((s for s in (0, 1) if self.w.arg["dsn", s] == dsn), None)
    def on_open(self, n):
        return ""
    def handle(self, conn, m):
        if m["op"] == "open":
            with self.lock: self.conns += 1; conn["n"] = self.conns
            conn["dsn"], conn["driver"] = m["dsn"], m["driver"]
            err = "" if self.side(m["dsn"]) is not None else "dial tcp: lookup %s: no such host" % m["dsn"]
            self.log(e="open", driver=m["driver"], dsn=m["dsn"], conn=conn["n"], err=err)
            return dict(err=err)
        if m["op"] == "query" and fakedb.is_read(m["sql"]):
            ws = " ".join(re.sub(r"--[^\n]*", "", m["sql"]).replace(";", " ").split()).upper()
            x = conn["driver"] if conn["driver"] != "postgres" else "cockroachdb" if ws == "SHOW CREATE ALL TABLES" else "postgres"
            s = self.side(conn["dsn"])
            if (s, x) not in self.w.items: return dict(err="syntax error")
            with self.lock:
                if (s, x) not in self.a: self.a[s, x] = showdb.Answers(x, self.w.items[s, x], random.Random(self.w.n))
                try: cols, rows = self.a[s, x].query(m["sql"], m["args"])
                except fakedb.DBError as e: return dict(err=str(e))
            self.log(e="query", sql=m["sql"], err="")
            return dict(err="", cols=cols, rows=rows)
        return super().handle(conn, m)

FAIL = None
def canon(text, x):
    """the statements of a text; a text of another dialect may not be readable in this one"""
    try: return tuple(sorted(fakedb.statements(text, x)))
    except sql.SqlError: return ("?" + text,)

def shown(text, x):
    try: return tuple(sorted(fakedb.shown_statements(text, x)))
    except sql.SqlError: return ("?",)

class Rig:
    def __init__(self, scr):
        self.scr, self.bin, self.drv, self.srv, self.env = scr, fakedb.build_cli(scr), common.build_driver(scr), fakedb.Server(scr), fakedb.clean_env()
    def close(self): self.srv.close()

def keys(w):
    return [dict(d=d, col=c, ddl=t, pk=p) for d in ("main", "other") for c in CLASSES for t in CLASSES for p in CLASSES]

def word(w, s, v, rng):
    """the concrete value of a setting"""
    if s == "dialect": return dict(main=w.d, other=w.e, unknown=rng.choice(["sqlite3", "oracle", "nosuch", "go", "true"]), empty="")[v]
    if s == "lang": return dict(go="go", unknown=rng.choice(["rust", "python", "golangx", w.d]))[v]
    if s == "auto": return dict(true=rng.choice(["true", "1", "T"]), false=rng.choice(["false", "0"]), bad=rng.choice(["maybe", "yes", "on"]))[v]
    return w.tags[s][v]

def line(w, c, rng, out):
    """-> (arguments, environment, arguments by place, destination)"""
    env, opts = {}, []
    for s in ("dialect", "lang", "col", "ddl", "pk", "auto"):
        g = c["set"][s]
        if g["env"]: env["DDLCTL_" + ENV[s]] = word(w, s, g["env"], rng)
        elif rng.random() < .1: env["DDLCTL_" + ENV[s]] = ""
        if g["opt"]:
            v = word(w, s, g["opt"], rng)
            if s == "auto": opts.append([OPTION[s]] if g["opt"] == "true" and rng.random() < .6 else [OPTION[s] + "=" + v])
            else: opts.append([OPTION[s], v] if rng.random() < .6 else [OPTION[s] + "=" + v])
    args = []
    for i, k in enumerate(c["args"]):
        if c["cmd"] == "generate" and i == 1 or k in ("new", "old", "into", "noparent"):
            args.append(os.path.join(out, dict(new="new.sql", old="old.sql", into="into", noparent="none/x.sql")[k])); continue
        a = w.arg[k, min(i, 1)] if c["cmd"] != "generate" else w.arg[k, 0]
        if k not in ("dsn", "missing") and rng.random() < .12: a = w.alias[k, min(i, 1) if c["cmd"] != "generate" else 0]
        if k not in ("dsn", "missing") and rng.random() < .3: a = os.path.join(w.root, a) if rng.random() < .5 else "./" + a
        args.append(a)
    root = []
    for n, e in (("--trace", "TRACE"), ("--debug", "DEBUG")):
        x = rng.random()
        if x < .06: root.append(n)
        elif x < .1: env["DDLCTL_" + e] = "true"
        elif x < .13: env["DDLCTL_" + e] = "false"
    rng.shuffle(opts)
    parts, rest = [], [[a] for a in args]
    cut = sorted(rng.choice([0, 0, len(rest), rng.randint(0, len(rest))]) for _ in opts)
    for i in range(len(rest) + 1):
        parts += [o for o, k in zip(opts, cut) if k == i]
        if i < len(rest): parts.append(rest[i])
    cmd = "gen" if c["cmd"] == "generate" and rng.random() < .2 else c["cmd"]
    return root + [cmd] + [x for p in parts for x in p], env, args

def answer(c, rng): return dict(yes="yes\n", no=rng.choice(["no\n", "\n", "y\n"]), eof=None)[c["ans"]]

def observe(rig, i, w, c, rng):
    """one run -> what happened"""
    out = rig.scr.path("o%d" % i, "x"); out = os.path.dirname(out)
    old = "-- what was here before\n" * 200
    if random.Random("link%d" % i).random() < .3:        # the destination is reached by a symbolic link
        far = os.path.dirname(rig.scr.path("far%d" % i, "x"))
        os.makedirs(os.path.join(far, "into"))
        for n in ("old.sql", "new.sql", "into"): os.symlink(os.path.join(far, n), os.path.join(out, n))
    else: os.makedirs(os.path.join(out, "into"))
    open(os.path.join(out, "old.sql"), "w").write(old)
    args, env, placed = line(w, c, rng, out)
    if "into" in c["args"][1:] and rng.random() < .5: open(os.path.join(out, "into", "ddlctl.gen.sql"), "w").write(old); prior = old
    else: prior = None
    db = Db(i, w)
    e = dict(rig.env); e.update(env)
    typed = answer(c, rng)
    r = fakedb.run_cli(rig.bin, rig.srv, db, args, w.root, os.path.join(out, "stdout"), typed.encode() if typed is not None and c["cmd"] == "apply" else None, e, timeout=60)
    read = lambda p: open(os.path.join(out, p)).read() if os.path.exists(os.path.join(out, p)) else None
    state = dict(new=read("new.sql"), old=read("old.sql"), into=read("into/ddlctl.gen.sql"), none=read("none/x.sql"))
    before = dict(new=None, old=old, into=prior, none=None)
    others = [n for n in os.listdir(out) if n not in ("new.sql", "old.sql", "into", "stdout", "stdout.err")] + [n for n in os.listdir(os.path.join(out, "into")) if n != "ddlctl.gen.sql"]
    kind = c["args"][1] if c["cmd"] == "generate" and len(c["args"]) == 2 else None
    touched = bool(others) or any(state[k] != before[k] for k in state if r["rc"] != 0 or k != kind)
    opened = [dict(drv=ev["driver"], arg=placed.index(ev["dsn"]) + 1 if ev["dsn"] in placed else 0) for ev in db.events if ev["e"] == "open"]
    sent = [ev["sql"] for ev in db.events if ev["e"] == "send"]
    return dict(args=args, env=env, rc=r["rc"], out=r["out"], err=r["err"], hang=r["hang"], result=state.get(kind) if kind else None, touched=touched, opened=opened, sent=sent)

def sources(w, base):
    """(kind, side, key) -> text in which the argument declares its schema under the settings, or FAIL"""
    def src(kind, side, key):
        x = w.d if key["d"] == "main" else w.e
        if kind == "file": return w.files[w.arg["file", side]]
        if kind in ("dir", "gofile"): return w.generated(side, x, key)
        if kind == "dsn": return base[w.n, side, x]
        return FAIL
    return src

def baselines(rig, worlds):
    """what the databases hold, as 'ddlctl show' tells (C11 judges that)"""
    jobs = [(w, s, x) for w in worlds for s in (0, 1) for x in (w.d, w.e)]
    def one(j):
        w, s, x = j
        r = fakedb.run_cli(rig.bin, rig.srv, Db("b%d-%d-%s" % (w.n, s, x), w), ["show", "--dialect", x, w.arg["dsn", s]], w.root, rig.scr.path("base-%d-%d-%s" % (w.n, s, x)), None, rig.env)
        return r["out"] if r["rc"] == 0 else FAIL
    return {(w.n, s, x): o for (w, s, x), o in zip(jobs, fakedb.run_many(jobs, one, THREADS))}

def judge(rig, jobs, worlds):
    """jobs: [(id, world number, command line)]"""
    W = {w.n: w for w in worlds}
    for w in worlds:
        w.root = os.path.dirname(rig.scr.path("world%d" % w.n, "x")); w.write(w.root)
    base = baselines(rig, worlds)
    obs = dict(zip([j[0] for j in jobs], fakedb.run_many(jobs, lambda j: observe(rig, j[0], W[j[1]], j[2], random.Random("c%d:%d" % (j[0], j[1]))), THREADS)))
    # the right outcome under every setting
    ops, at = [], {}
    want = {}
    for i, wn, c in jobs:
        w, src = W[wn], sources(W[wn], base)
        if len(c["args"]) != (1 if c["cmd"] == "show" else 2): continue
        for key in keys(w):
            x = w.d if key["d"] == "main" else w.e
            if c["cmd"] in ("generate", "show"):
                want[i, json.dumps(key)] = FAIL if c["cmd"] == "generate" and c["args"][1] == "noparent" else src(c["args"][0], 0, key)
                continue
            a, b = src(c["args"][0], 0, key), src(c["args"][1], 1, key)
            if a is FAIL or b is FAIL: want[i, json.dumps(key)] = FAIL; continue
            if (x, a, b) not in at: at[x, a, b] = len(ops); ops.append(dict(id=len(ops), d=x, texts=[a, b], steps=[dict(i=0, j=1)]))
            want[i, json.dumps(key)] = (x, a, b)
    res = common.drive(rig.drv, ops)
    def text(o):
        if not isinstance(o, tuple): return o
        r = res[at[o]]
        if r["panic"] or r["hang"] or not all(p["ok"] for p in r["parsed"]): return FAIL
        s = r["steps"][0]
        return s["out"] if s["ok"] else "" if s["nodiff"] else FAIL
    traces = []
    for i, wn, c in jobs:
        w, o = W[wn], obs[i]
        got, empty = [], []
        for key in keys(w):
            x = w.d if key["d"] == "main" else w.e
            t = text(want.get((i, json.dumps(key)), FAIL))
            if t is FAIL:
                if o["rc"] != 0 and "-- 8< --" not in o["out"]: got.append(key)
                continue
            if not t.strip(): empty.append(key)
            if o["rc"] != 0 and (c["cmd"] != "apply" or "-- 8< --" not in o["out"]): continue
            if c["cmd"] == "apply":
                seen = canon("".join(s.rstrip().rstrip(";") + ";\n" for s in o["sent"] if re.sub(r"\W+", " ", s).strip().upper() not in ("START BATCH DDL", "RUN BATCH", "ABORT BATCH")), x)
                ok = canon(t, x) == seen if o["sent"] else True
                if ok: ok = shown(o["out"], x) == canon(t if t.strip() else "", x)
            else: ok = canon(o["result"] or "" if c["cmd"] == "generate" else o["out"], x) == canon(t, x)
            if ok: got.append(key)
        traces.append(dict(id=i, c=c, rc=abs(o["rc"]), crash=o["hang"] or "panic: " in o["err"] or "fatal error: " in o["err"] or o["rc"] < 0, got=got, quiet=not o["out"].strip(), opened=o["opened"],
                           drv=dict(main=DRIVER[w.d], other=DRIVER[w.e]), sent=len(o["sent"]), empty=empty, touched=o["touched"], shown="-- 8< --" in o["out"]))
    return traces, common.check_traces(rig.scr, "CommandTrace", traces), obs

def scenarios(scr, tier, seed):
    rng = random.Random(seed * 41 + 7)
    cs = []
    for given, anyc, sim in (("1", "1", 0), ("6", "0", RUNS[tier] * 4)):
        ex = ["-simulate", "num=%d" % sim, "-depth", "40", "-seed", str(seed)] if sim else []
        o = common.tlc(scr, "Command", dict(COMMAND_GIVEN=given, COMMAND_ANYCOUNT=anyc), workers=1 if sim else 8, extra=ex, name="command-%s" % given)
        got = [json.loads(s) for s in sorted({l.split("|", 1)[1] for l in common.printed(o, "SCN")})]
        for ok, share in ((True, .4), (False, .13)):
            groups = {}
            for s in got:
                if s["ok"] == ok: groups.setdefault((s["c"]["cmd"], tuple(s["c"]["args"]), s["free"]), []).append(s["c"])
            gs = [groups[k] for k in sorted(groups)]
            for g in gs: rng.shuffle(g)
            rng.shuffle(gs)
            n, k = int(RUNS[tier] * share), 0
            while n > 0 and any(k < len(g) for g in gs):
                for g in gs:
                    if k < len(g) and n > 0: cs.append(g[k]); n -= 1
                k += 1
    return cs

# ------------------------------------------------------------------ the same schema from a file, a source, a database
def gosource(items, d, rng):
    """annotated Go source of the schema, or None when a name cannot be written there"""
    idx = {}
    for it in items:
        if it["e"] == "CreateIndex": idx.setdefault(it["t"], []).append(it)
    q = '"' if d in ("postgres", "cockroachdb") else "`"
    st = render.Style(d)
    L = ["package model", ""]
    n = 0
    for it in items:
        if it["e"] != "CreateTable": continue
        n += 1
        text = render.statement(dict(it, cons=[dict(c, inline=False) for c in it["cons"]]), st)
        if any("\n" in t.raw for t in sql.tokenize(text, d)): return None   # a comment or tag holds one line
        parts = split(text, d)
        if parts is None: return None
        head, elems, tail = parts
        cols, cons, pk = [], [], None
        for e in elems:
            ts = sql.tokenize(e, d)
            if ts[0].k == "w" and ts[0].raw.upper() in ("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK", "KEY", "INDEX"): cons.append(e)
            else:
                m = e[:len(ts[0].raw)] if e.startswith(ts[0].raw) else None
                if m is None or re.search(r'["`\\]', ts[0].v if ts[0].k == "q" else "") : return None
                cols.append((ts[0].v if ts[0].k == "q" else ts[0].raw, e[len(m):].strip()))
        if any("\n" in x or "`" in x for _, x in cols) or any("\n" in x for x in cons): return None
        keytail = None
        if d == "spanner":
            m = re.match(r"PRIMARY KEY \(([^)]*)\)(.*)$", tail, re.S)
            if not m: return None
            keycols, tail = [re.sub(r"[`]", "", x).strip() for x in m.group(1).split(",") if x.strip()], m.group(2).strip().lstrip(",").strip()
        else:
            keycols = None
            for e in cons:
                m = re.fullmatch(r"PRIMARY KEY \(([^()]*)\)", e)
                if m: keycols = [x.strip().strip('"`') for x in m.group(1).split(",")]; cons.remove(e); break
        order = [c for c, _ in cols]
        if keycols is not None:
            if any(re.search(r" (ASC|DESC)$", k) for k in keycols) or keycols != [c for c in order if c in keycols]: return None
        opts = []
        if tail:
            if d == "spanner" or d == "mysql": opts = [tail]
            else: return None
        L += ["// T%d holds rows." % n, "//"] + ["//ddlctl:table %s" % head.split("CREATE TABLE ", 1)[1].strip()] + ["//ddlctl:constraint %s" % e for e in cons] + ["//ddlctl:option %s" % o for o in opts]
        L += ["//ddlctl:index %s" % render.statement(x, st) for x in idx.pop(it["t"], [])]
        L.append("type T%d struct {" % n)
        for k, (c, x) in enumerate(cols):
            tag = 'db:"%s" ddlctl:"%s"' % (c, x.replace("\\", "\\\\").replace('"', '\\"')) + (' pk:"true"' if keycols and c in keycols else "")
            L.append("\tF%d int `%s`" % (k, tag))
        L += ["}", ""]
    return "\n".join(L)

def split(text, d):
    """head, elements, tail of CREATE TABLE"""
    ts = sql.tokenize(text, d)
    dep, i, cut, elems = 0, None, 0, []
    for t in ts:
        if t.k == "o" and t.raw == "(":
            dep += 1
            if dep == 1 and i is None: i = t.pos; cut = t.pos + 1
        elif t.k == "o" and t.raw == ")":
            dep -= 1
            if dep == 0:
                elems.append(text[cut:t.pos].strip())
                return text[:i], [" ".join(e.split("\n")) for e in elems], text[t.pos + 1:].strip()
        elif t.raw == "," and dep == 1: elems.append(text[cut:t.pos].strip()); cut = t.pos + 1
    return None

def pair(x):
    """-> (dialect, items A, items B, sources A, sources B) or None"""
    d, a, b, sd = x
    rng = random.Random(sd)
    cats = [showdb.reported(json.loads(json.dumps(c)), d) for c in (a, b)]
    m = showdb.Mapping(d, rng, render.attrs_used(cats))
    try: its = [render.concretize(c, m, rng) for c in cats]
    except render.Skip: return None
    if d in ("mysql", "cockroachdb"): its = [[it for it in i if it["e"] == "CreateTable"] for i in its]
    return d, [c_show.named(d, i, rng) for i in its]

def equivalences(rig, tier, seed, cats):
    rng = random.Random(seed * 43 + 11)
    ps = schema.pairs(cats, seed + 91, 120)
    by = {}
    for p in ps: by.setdefault(p[0], []).append(p)
    jobs = []
    for d in sorted(by):
        for p in rng.sample(by[d], min(len(by[d]), PAIRS[tier])):
            y = pair(p)
            if y is None: continue
            its = y[1]
            forms = []
            for i in its:
                f = ["file", "dsn"]
                g = gosource(i, d, rng) if i else None
                if g: f.append("dir")
                forms.append(f)
            for _ in range(2): jobs.append(dict(id=len(jobs), d=d, items=its, forms=[rng.choice(f) for f in forms], sd=p[3]))
    return jobs

class Db2(fakedb.Scenario):
    def __init__(self, id, d, answers):
        super().__init__(id, d); self.answers = answers
    def handle(self, conn, m):
        if m["op"] == "open": conn["dsn"] = m["dsn"]
        conn["last"] = m
        if m["op"] == "query" and fakedb.is_read(m["sql"]):
            a = self.answers.get(conn["dsn"])
            if a is None: return dict(err="unknown database")
            with self.lock:
                try: cols, rows = a.query(m["sql"], m["args"])
                except fakedb.DBError as e: return dict(err=str(e))
            return dict(err="", cols=cols, rows=rows)
        return super().handle(conn, m)

def equal_runs(rig, jobs):
    def one(j):
        rng = random.Random("e%s%s" % (j["sd"], j["forms"]))
        d, root = j["d"], os.path.dirname(rig.scr.path("e%d" % j["id"], "x"))
        args, ans, decl = [], {}, []
        for s, (items, f) in enumerate(zip(j["items"], j["forms"])):
            a = showdb.Answers(d, items, random.Random(j["sd"]))
            decl.append(c_show.declared(d, items, a))
            if f == "dsn": args.append("db%d.example/app" % s); ans[args[-1]] = a
            elif f == "file":
                n = "s%d.sql" % s; args.append(n)
                open(os.path.join(root, n), "w").write(a.script() if d in ("mysql", "cockroachdb") else render.text(items, render.Style.random(d, rng)))
            else:
                n = "m%d" % s; args.append(n); os.makedirs(os.path.join(root, n))
                open(os.path.join(root, n, "m.go"), "w").write(gosource(items, d, rng))
        r = fakedb.run_cli(rig.bin, rig.srv, Db2("e%d" % j["id"], d, ans), ["diff", "--dialect", d] + args, root, os.path.join(root, "stdout"), None, rig.env)
        r.update(before=decl[0], after=decl[1])
        return r
    rs = fakedb.run_many(jobs, one, THREADS)
    traces, outs, bad = [], {}, {}
    for j, r in zip(jobs, rs):
        outs[j["id"]] = r
        if r["rc"] != 0: bad[j["id"]] = [("C12", 0, "the difference of a %s and a %s fails: %s" % (*j["forms"], r["err"][-200:]))]; continue
        traces.append(dict(id=j["id"], d=j["d"], kind="diff", before=r["before"], after=r["after"], events=sql.read_script(r["out"], j["d"])))
    rej = common.check_traces(rig.scr, "DiffTrace", traces)
    for i, v in rej.items():
        if any(p == "BADSCENARIO" for p, _, _ in v): raise common.Machinery("bad scenario: %s" % (v,))
        v = [(("C12"), pos, why) for p, pos, why in v if p in ("C01", "C02")]
        if v: bad.setdefault(i, []).extend(v)
    return traces, bad, outs

# ------------------------------------------------------------------
def worlds_of(scr, tier, seed, cats):
    pool = {d: [c for b in ("2", "3") for n, c in cats[d][b] if n <= 1] for d in cats}
    return [World(n, seed, pool) for n in range(WORLDS[tier])]

def run(prop, tier, seed, scr, rep):
    cats = schema.catalogs(scr, "quick", seed)
    worlds = worlds_of(scr, tier, seed, cats)
    cs = scenarios(scr, tier, seed)
    jobs = [(i, i % len(worlds), c) for i, c in enumerate(cs)]
    rig = Rig(scr)
    try:
        traces, rej, obs = judge(rig, jobs, worlds)
        ejobs = equivalences(rig, tier, seed, cats)
        etr, ebad, eouts = equal_runs(rig, ejobs)
    finally: rig.close()
    best = {}
    for i, rs in rej.items():
        for p, pos, why in rs:
            k = (jobs[i][2]["cmd"], re.sub(r"<<.*|\{.*|\[.*", "", why)[:60])
            size = len(obs[i]["args"]) + len(obs[i]["env"])
            if k not in best or size < best[k][0]: best[k] = (size, i, why)
    for _, (_, i, why) in sorted(best.items()):
        w, o = worlds[jobs[i][1]], obs[i]
        rep.violation("%s: %s\nddlctl %s\nenvironment %s\nstatus %d\n%s%s" % (w.d, why, " ".join(map(repr, o["args"])), o["env"], o["rc"], o["out"][:1500], o["err"][-500:]),
                      dict(kind="command", seed=seed, tier=tier, world=w.n, id=i, c=jobs[i][2], why=why))
    seen = {}
    for i, rs in ebad.items():
        for p, pos, why in rs:
            k = (ejobs[i]["d"], tuple(ejobs[i]["forms"]), re.sub(r"<<.*|\{.*|\[.*|\"[^\"]*\"|table \S+", "", why)[:60])
            size = len(json.dumps(ejobs[i]["items"]))
            if k not in seen or size < seen[k][0]: seen[k] = (size, i, why)
    for _, (_, i, why) in sorted(seen.items()):
        rep.violation("%s, from a %s to a %s: %s\n%s%s" % (ejobs[i]["d"], *ejobs[i]["forms"], why, eouts[i]["out"], eouts[i]["err"][-400:]), dict(kind="equal", job=ejobs[i], why=why))
    forms = {}
    for j in ejobs: forms["-".join(j["forms"])] = forms.get("-".join(j["forms"]), 0) + 1
    rep.cov.update(command_lines=len(traces), refused=sum(t["rc"] != 0 for t in traces), commands={c: sum(t["c"]["cmd"] == c for t in traces) for c in ("generate", "show", "diff", "apply")},
                   told_apart=round(sum(len(t["got"]) < 54 for t in traces) / max(1, len(traces)), 2), differences_across_sources=len(etr), sources=forms)
    rep.samples = [dict(command=["ddlctl"] + obs[i]["args"], environment=obs[i]["env"], status=obs[i]["rc"], output=obs[i]["out"][:500]) for i in list(obs)[::max(1, len(obs) // 4)][:4]]
    return len(traces) + len(etr)

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        rig = Rig(scr)
        try:
            if x["kind"] == "equal":
                _, bad, outs = equal_runs(rig, [dict(x["job"], id=0)])
                for r in outs.values(): print(r["out"], r["err"][-600:])
                rs = bad.get(0, [])
            else:
                cats = schema.catalogs(scr, "quick", x["seed"])
                w = worlds_of(scr, x["tier"], x["seed"], cats)[x["world"]]
                _, rej, obs = judge(rig, [(x["id"], x["world"], x["c"])], [w])
                for o in obs.values(): print("ddlctl", o["args"], o["env"], "status", o["rc"]); print(o["out"], o["err"][-600:])
                rs = rej.get(x["id"], [])
        finally: rig.close()
        for r in rs: print("REJECT", r)
        if rs: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rs else 0
    finally: scr.close()
