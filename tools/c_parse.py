"""C06: texts near the grammar (spec/Edits.tla) given to the real parser, its answers validated by spec/ParseTrace.tla."""
import json, random, collections, concurrent.futures as cf
import common, schema, render, sql

# statements that together use the whole grammar of each dialect
PGB = [
 "CREATE TABLE IF NOT EXISTS public.users ( id SERIAL NOT NULL PRIMARY KEY , name VARCHAR ( 64 ) DEFAULT 'x' UNIQUE , n DECIMAL ( 8 , 2 ) )",
 "CREATE TABLE t ( a INTEGER NOT NULL DEFAULT ( 1 + 2 ) , ts TIMESTAMP WITH TIME ZONE DEFAULT now ( ) NOT NULL , CONSTRAINT pk PRIMARY KEY ( a , ts ) )",
 "CREATE TABLE \"order\" ( \"group\" TEXT CHECK ( \"group\" <> 'a;b' ) , r INTEGER REFERENCES u ( id ) ON UPDATE CASCADE ON DELETE NO ACTION )",
 "CREATE TABLE t ( a BIGINT , b DOUBLE PRECISION , CONSTRAINT fk FOREIGN KEY ( a , b ) REFERENCES u ( c , d ) ON DELETE CASCADE ON UPDATE NO ACTION , UNIQUE ( a , b ) , CONSTRAINT u2 UNIQUE ( b ) )",
 "CREATE TABLE t ( a JSONB DEFAULT '{}' :: jsonb , CONSTRAINT ck CHECK ( ( a > 0 ) AND ( a < 9 ) ) )",
 "CREATE UNIQUE INDEX IF NOT EXISTS i ON public.t USING btree ( a , b )",
 "CREATE TABLE a ( x INT ) ; CREATE INDEX i ON a ( x ) ; CREATE TABLE b ( y INT )",
]
CRB = [
 "CREATE TABLE IF NOT EXISTS public.users ( id INT8 NOT NULL DEFAULT unique_rowid ( ) PRIMARY KEY , name STRING ( 64 ) DEFAULT 'x' :: STRING , n DECIMAL ( 8 , 2 ) )",
 "CREATE TABLE t ( a INT4 NOT NULL , v INT2 NOT VISIBLE AS ( mod ( a , 16 ) ) VIRTUAL , CONSTRAINT pk PRIMARY KEY ( a ASC ) , UNIQUE INDEX u ( a ASC , v DESC ) , INDEX i ( v ASC ) USING HASH WITH ( bucket_count = 8 ) )",
 "CREATE TABLE \"order\" ( \"group\" TEXT CHECK ( \"group\" <> 'a;b' ) , r INTEGER REFERENCES u ( id ) ON UPDATE CASCADE ON DELETE NO ACTION )",
 "CREATE TABLE t ( a BIGINT , b DOUBLE PRECISION , CONSTRAINT fk FOREIGN KEY ( a , b ) REFERENCES u ( c , d ) ON DELETE CASCADE ON UPDATE NO ACTION , CONSTRAINT ck CHECK ( a > 0 ) )",
 "CREATE TABLE t ( a TIMESTAMPTZ DEFAULT now ( ) , b TIMESTAMP WITH TIME ZONE , s STRING AS ( lower ( 'x' ) ) STORED )",
 "CREATE UNIQUE INDEX IF NOT EXISTS i ON public.t ( a ASC , b DESC )",
 "CREATE TABLE a ( x INT ) ; CREATE INDEX i ON a ( x ) ; CREATE TABLE b ( y INT )",
]
MYB = [
 "CREATE TABLE `users` ( `id` BIGINT ( 20 ) NOT NULL AUTO_INCREMENT , name VARCHAR ( 64 ) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin DEFAULT 'x' COMMENT 'it' , PRIMARY KEY ( `id` ) ) ENGINE = InnoDB AUTO_INCREMENT = 3 , DEFAULT CHARSET = utf8mb4 COLLATE = utf8mb4_bin COMMENT = 'c'",
 "CREATE TABLE t ( a INT PRIMARY KEY , ts DATETIME ( 6 ) NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP , e ENUM ( 'a' , 'b' ) NULL DEFAULT 'a' , UNIQUE KEY uk ( a , ts ) , KEY k ( e ) )",
 "CREATE TABLE t ( a INT UNIQUE CHECK ( a > 0 ) , r BIGINT REFERENCES u ( id ) ON DELETE CASCADE ON UPDATE NO ACTION )",
 "CREATE TABLE t ( a DECIMAL ( 8 , 2 ) , b TINYINT ( 1 ) , CONSTRAINT fk FOREIGN KEY ( a , b ) REFERENCES u ( c , d ) ON DELETE CASCADE , CONSTRAINT ck CHECK ( ( a > 0 ) AND ( b < 9 ) ) )",
 "CREATE UNIQUE INDEX i ON t ( a , b DESC )",
 "CREATE TABLE a ( x INT ) ; CREATE INDEX i ON a ( x ) ; CREATE TABLE b ( y INT )",
]
SPB = [
 "CREATE TABLE IF NOT EXISTS users ( id STRING ( 36 ) NOT NULL , ts TIMESTAMP DEFAULT ( CURRENT_TIMESTAMP ( ) ) OPTIONS ( allow_commit_timestamp = true ) , n NUMERIC ) PRIMARY KEY ( id ASC , ts DESC ) , INTERLEAVE IN PARENT p ON DELETE CASCADE , ROW DELETION POLICY ( OLDER_THAN ( ts , INTERVAL 30 DAY ) )",
 "CREATE TABLE t ( a INT64 NOT NULL , s STRING ( MAX ) , CONSTRAINT fk FOREIGN KEY ( a , s ) REFERENCES u ( c , d ) , CONSTRAINT ck CHECK ( a > 0 ) , CHECK ( s <> 'x' ) ) PRIMARY KEY ( a )",
 "CREATE TABLE `order` ( `group` BOOL NOT NULL , f FLOAT64 ) PRIMARY KEY ( `group` ) , INTERLEAVE IN PARENT p ON DELETE NO ACTION",
 "CREATE UNIQUE INDEX IF NOT EXISTS i ON t ( a ASC , b DESC )",
 "CREATE TABLE a ( x INT64 ) PRIMARY KEY ( x ) ; CREATE INDEX i ON a ( x ) ; CREATE TABLE b ( y INT64 ) PRIMARY KEY ( y )",
]
BASES = {"postgres": PGB, "cockroachdb": CRB, "mysql": MYB, "spanner": SPB}
VOCAB = ["(", ")", ",", ";", "NOT", "NULL", "DEFAULT", "PRIMARY", "KEY", "UNIQUE", "CHECK", "CONSTRAINT", "REFERENCES", "FOREIGN", "CREATE", "TABLE", "INDEX", "ON", "x", "'s'", "7", "=", "INTEGER",
         "'open", "DROP", "VIEW", "--", ".", "\x00", "é", "::", "IF", "USING", "AS", "ASC"]
EXTRA = {"postgres": ["\"open", "CASCADE", "WITH"], "cockroachdb": ["\"open", "CASCADE", "VISIBLE", "STORED", "HASH"], "mysql": ["`open", "COMMENT", "AUTO_INCREMENT", "SET", "COLLATE", "ENGINE"], "spanner": ["`open", "INTERLEAVE", "ROW", "OPTIONS", "INT64"]}
# words that a print may leave out without losing meaning: they state the default
DROP = {"NULL", "ASC", "INDEX", "KEY", "CONSTRAINT", "USING", "BTREE", "BOOLEAN"}
BUDGET = {"quick": 9000, "thorough": 120000}
BROKEN = {"postgres": "CREATE TABLE t ( a INT ; ) --'\"", "cockroachdb": "CREATE TABLE t ( a INT ; ) --'\"", "mysql": "CREATE TABLE t ( a INT ; ) --'\"`", "spanner": "CREATE TABLE t ( a INT64 ; ) --'\"`"}

def toks(text, d):
    """tokens of a text for the specification"""
    if any(ord(c) > 127 or (ord(c) < 32 and c not in "\t\r\n") for c in text): return None
    try: ts = sql.tokenize(text, d)
    except sql.SqlError: return [dict(k="bad", v="")]
    return [dict(k=t.k, v=t.v.upper() if t.k == "w" else t.v) for t in ts]

def names(text, d):
    try: return sorted({t.v.upper() for t in sql.tokenize(text, d) if t.k in ("w", "q", "s", "n", "p")})
    except sql.SqlError: return []

def sweep(scr, tier, seed, rng):
    """[(dialect, text, must)]; must: True the text must be taken, False the specification decides, None only that there is an answer"""
    out = []
    def gen(d):
        bs = BASES[d]
        f = scr.path("edits-%s.ndjson" % d)
        with open(f, "w") as fh: fh.write(json.dumps(dict(bases=[b.split(" ") for b in bs], vocab=VOCAB + EXTRA[d])) + "\n")
        o = common.tlc(scr, "Edits", dict(EDITS_INPUT=f, EDITS="1"), name="edits-" + d)
        sim = 2500 if tier == "quick" else 40000
        o2 = common.tlc(scr, "Edits", dict(EDITS_INPUT=f, EDITS="3"), name="edits3-" + d, cfg="EditsRandom.cfg", extra=["-simulate", "num=%d" % sim, "-depth", "4", "-seed", str(seed)])
        return d, o, o2
    with cf.ThreadPoolExecutor(4) as ex: gens = list(ex.map(gen, BASES))
    for d, o, o2 in gens:
        bs = BASES[d]
        for b in bs: out.append((d, b, True))
        got = []
        one = [json.loads(l.split("|", 3)[3]) for l in common.printed(o, "TEXT")]
        many = [json.loads(l.split("|", 3)[3]) for l in common.printed(o2, "TEXT") if not l.startswith("TEXT|1|")]
        cuts = [t for t in one if any(t == b.split(" ")[:len(t)] for b in bs)]
        # of the single edits those without a foreign word (a token missing, doubled, or swapped with its neighbour) are all taken
        known = {tuple(sorted(b.split(" "))) for b in bs}
        fewer = {tuple(sorted(ts[:k] + ts[k + 1:])) for ts in (b.split(" ") for b in bs) for k in range(len(ts))}
        cuts += [t for t in one if tuple(sorted(t)) in known or tuple(sorted(t)) in fewer]
        rest = list(one)
        rng.shuffle(rest); rng.shuffle(many)
        seen = set()
        for t in cuts + rest + many:
            x = " ".join(t)
            if x not in seen: seen.add(x); got.append(x)
        lim = BUDGET[tier]
        nc = len({" ".join(t) for t in cuts})
        got = got[:nc] + got[nc:nc + lim] + [" ".join(t) for t in many[:lim // 4]]
        out += [(d, x, False) for x in got]
        out += raw(d, tier, rng)
    return out

def raw(d, tier, rng):
    """texts made on the level of characters: every prefix, random bytes, deep nesting, long words"""
    out = []
    tight = lambda b: b.replace(" ( ", "(").replace(" )", ")").replace(" , ", ",\n")
    for b in BASES[d]:
        t = tight(b)
        out += [(d, t[:i], False) for i in range(0, len(t), 1 if tier == "thorough" else 3)]
        for _ in range(30 if tier == "quick" else 600):
            x = list(t)
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(len(x)); c = rng.choice("'\"`();,.-=<>|:[]{}!@#$%^&*~?\\/+\x00\x01\x7f\t\r\n\u00e9\u3042\U0001f600 aA0_")
                k = rng.randrange(3)
                if k == 0: x[i] = c
                elif k == 1: x.insert(i, c)
                else: del x[i:i + rng.randint(1, 5)]
                if not x: break
            out.append((d, "".join(x), None))
    ty = "INT64" if d == "spanner" else "INT"
    for n in (50, 2000):
        out += [(d, x, None) for x in ["CREATE TABLE t (a %s CHECK (%s" % (ty, "(" * n), "CREATE TABLE t (a %s DEFAULT %s1%s)" % (ty, "(" * n, ")" * n), "(" * n, ")" * n, "CREATE " * n, "CREATE TABLE " + "a" * n, "'" * (n + 1), "-- " * n, "CREATE TABLE t (" + ("a %s, " % ty) * n]]
    return out

def outcome(r):
    return "panic" if r["panic"] else "hang" if r["hang"] else "ok" if r["parsed"][0]["ok"] else "err"

def judge(drv, scr, xs):
    res = common.drive(drv, [dict(id=i, d=d, texts=[t], steps=[]) for i, (d, t, _) in enumerate(xs)])
    traces = []
    stats = collections.Counter()
    for i, (d, t, must) in enumerate(xs):
        r = res[i]; oc = outcome(r)
        stats[oc] += 1
        ts = toks(t, d)
        if ts is None or must is None: ts, sig, kept = [], [], []     # only that there is an answer
        elif oc == "ok":
            sig = [n for n in names(t, d) if n not in DROP]; kept = names(r["parsed"][0]["out"], d)
        else: sig, kept = [], []
        traces.append(dict(id=i, d=d, outcome=oc, toks=ts if oc == "ok" else [], musttake=must is True, sig=sig, kept=kept))
    return res, traces, common.check_traces(scr, "ParseTrace", traces), stats

def run(prop, tier, seed, scr, rep):
    drv = common.build_driver(scr)
    rng = random.Random(seed * 31 + 7)
    xs = sweep(scr, tier, seed, rng)
    res, traces, rej, stats = judge(drv, scr, xs)
    best = {}
    for i, rs in rej.items():
        for p, pos, why in rs:
            k = (xs[i][0], why[:60])
            if k not in best or len(xs[i][1]) < best[k][0]: best[k] = (len(xs[i][1]), i, why)
    for (d, _), (_, i, why) in sorted(best.items()):
        r = res[i]
        rep.violation("%s: %s\n%r\n-> %s" % (d, why, xs[i][1], (r["panic"] or r["parsed"] and (r["parsed"][0]["out"] or r["parsed"][0]["err"]))[:600]), dict(kind="parse", text=xs[i], why=why))
    rep.cov.update(texts=len(xs), outcomes=dict(stats), per_dialect={d: sum(x[0] == d for x in xs) for d in sql.DIALECTS})
    rep.samples = [dict(text=x[1], outcome=traces[k]["outcome"]) for k, x in list(enumerate(xs))[::max(1, len(xs) // 4)][:4]]
    return len(traces)

def replay(prop, path):
    x = json.load(open(path))
    scr = common.Scratch()
    try:
        xs = [tuple(x["text"])]
        res, traces, rej, _ = judge(common.build_driver(scr), scr, xs)
        print("%s\n%r\n-> %s" % (xs[0][0], xs[0][1], res[0]))
        for r in rej.get(0, []): print("REJECT", r)
        if rej.get(0): print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rej.get(0) else 0
    finally: scr.close()
