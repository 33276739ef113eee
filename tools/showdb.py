"""A database of each dialect that answers the catalog queries of 'ddlctl show' (the real query texts are evaluated in
sqlite over an information schema filled with what such a database reports), with things in it that are not to be shown."""
import random, re, sqlite3
import common, fakedb, render, sql

# as the database reports types, defaults and expressions
PG = [
 dict(T=["integer", "bigint", "smallint"], D=["0", "42", "(1 + 2)", "'-1'::integer", "nextval('users_id_seq'::regclass)"], X=["(({c} > 0))", "((({c} >= 10) AND ({c} <= 20)))", "(({c} = ANY (ARRAY[1, 2, 3])))", "((({c} > 0) OR ({c} IS NULL)))"]),
 dict(T=["text", "character varying(64)", "character varying"], D=["'x'::text", "''::text", "'x'::character varying", "'a;b'::text", "'--'::text", "'it''s'::text", "('x'::text || 'y'::text)", "upper('q'::text)", "NULL::character varying", "'100% %d'::text", "'a\nb'::text", "'t\tab  x'::text"],
      X=["(({c} ~~ '%s'::text))", "(({c} <> ''::text))", "((({c})::text <> ''::text))", "((char_length({c}) > 3))", "(({c} ~~ 'a%'::text))", "(({c} <> '); --'::text))"]),
 dict(T=["boolean", "integer", "text"], D=["true", "false"], X=["(({c} IS NOT NULL))"]),
 dict(T=["timestamp with time zone", "timestamp without time zone", "text"], D=["now()", "CURRENT_TIMESTAMP", "timezone('utc'::text, now())", "'2020-01-01 00:00:00'::timestamp without time zone"],
      X=["(({c} > '2020-01-01 00:00:00'::timestamp without time zone))", "(({c} IS NOT NULL))"]),
 dict(T=["uuid", "jsonb", "text"], D=["gen_random_uuid()", "'{}'::jsonb"], X=["(({c} IS NOT NULL))"]),
 dict(T=["numeric(10, 2)", "numeric(8, 0)", "numeric"], D=["0.5", "'0.5'::numeric", "1"], X=["(({c} < 100.5))", "((({c} * (2)::numeric) < (7)::numeric))"]),
 dict(T=["double precision", "real", "bigint"], D=["0.5", "'1.5'::double precision"], X=["(({c} < (100.5)::double precision))"]),
]
SP = [
 dict(T=["INT64", "NUMERIC", "FLOAT64"], D=["(0)", "(42)", "(1 + 2)"], X=["({c} > 0)"]),
 dict(T=["STRING(64)", "STRING(255)", "STRING(MAX)"], D=["('x')", "('')", "('a b; c')", "(GENERATE_UUID())", "('--dash')", "('100% %d')", "('%s')", "('a\nb')", "('t\tab  x')", "('it\\'s')", "(\"dq\")"], X=["({c} <> '')"]),
 dict(T=["BOOL", "INT64", "STRING(5)"], D=["(TRUE)", "(FALSE)"], X=["({c} = TRUE)"]),
 dict(T=["TIMESTAMP", "STRING(32)", "INT64"], D=["(CURRENT_TIMESTAMP())", "(TIMESTAMP_SECONDS(0))"], X=["({c} IS NOT NULL)"]),
 dict(T=["JSON", "STRING(99)", "STRING(MAX)"], D=["(JSON_OBJECT())", "('{}')"], X=["({c} IS NOT NULL)"]),
]
PGTABLES = [["public.users", "public.orders", "public.items"], ["public.t_1", "public.t_10", "public.x"], ["public.account_books", "public.account", "public.account_book"], ["public.table_a", "public.tables", "public.create_b"]]
PLAIN = [["users", "orders", "items"], ["t_1", "tbl2", "x"], ["account_books", "account", "account_book"], ["Albums", "Singers", "Songs"]]
PGCOLS = [["id", "name", "ref_id", "note"], ["group", "order", "userId", "Id"], ["c1", "c10", "c", "c2"], ["my col", "a-b", "ID", "id"]]
PLAINCOLS = [["id", "name", "ref_id", "note"], ["c1", "c10", "c", "c2"], ["UserId", "Id", "Name", "CreatedAt"]]

USED = {}                        # value -> how often a schema has it; a value that is rare so far comes first
def used(items):
    for it in items:
        for r in it.get("_raw", {}).values():
            for k in ("type", "def"): USED[k, r[k]] = USED.get((k, r[k]), 0) + 1
        for c in it.get("cons", ()): USED["X", c.get("_expr")] = USED.get(("X", c.get("_expr")), 0) + 1

class Mapping(render.Mapping):
    def __init__(self, d, rng, attrs):
        super().__init__(d, rng, attrs)
        if d in ("postgres", "spanner"):
            P = PG if d == "postgres" else SP
            ts = list(rng.choice(PGTABLES if d == "postgres" else PLAIN)); rng.shuffle(ts)
            cs = list(rng.choice(PGCOLS if d == "postgres" else PLAINCOLS)); rng.shuffle(cs)
            self.t = dict(zip(["t1", "t2", "t3"], [(t, 0) for t in ts]))
            self.c = dict(zip("abce", [(c, 0) for c in cs]))
            for k in self.theme:
                th = P[3] if "opts" in attrs.get(k, ()) and d == "spanner" else rng.choice(P)
                self.theme[k] = {x: rng.sample(v, len(v)) for x, v in th.items()}
                if rng.random() < .7: self.theme[k]["D"].sort(key=lambda v: USED.get(("def", v), 0))
            self.attr["opts"] = ["(allow_commit_timestamp = TRUE)", "(allow_commit_timestamp = FALSE)"]
            self.using = ["USING hash", "USING gin", "USING brin"]
            if d == "postgres" and rng.random() < .2: self.i = {k: (v[0].upper() + v[1:]) for k, v in self.i.items()}
        elif d == "mysql":
            if any("." in n for n, _ in self.t.values()): self.t = {k: (n.split(".")[-1], q) for k, (n, q) in self.t.items()}
    def tt(self, c, t): return self.theme[t, c]["T"]
    def is_named(self, k): return True if self.d == "postgres" else super().is_named(k)
    def in_table(self, i): return self.d in ("mysql", "cockroachdb")
    def ifnot(self, k): return False

def reported(cat, d):
    """the abstract catalog without what the dialect's database cannot report (or, in known findings, what show leaves out)"""
    for tab in render.fn(cat["tables"]).values():
        cons = render.fn(tab["cons"])
        for k, con in list(cons.items()):
            if d in ("spanner", "cockroachdb") and con["kind"] == "FK" or d == "spanner" and con["kind"] == "CK": del cons[k]
        tab["cons"] = cons
        if d == "spanner" and tab["il"]["act"] == "NO ACTION": tab["il"]["act"] = ""
    return cat

def q(n): return n if re.fullmatch("[a-z_][a-z0-9_]*", n) and n not in render.MUSTQ else '"%s"' % n

def ident(x):
    return None if x is None else q(x)

class Sqlite:
    """evaluates catalog queries; every schema-qualified table is a table of the attached database"""
    def __init__(self, tables, rng):
        self.db = db = sqlite3.connect(":memory:", check_same_thread=False)
        db.execute("ATTACH ':memory:' AS information_schema")
        db.create_function("quote_ident", 1, ident)
        db.create_function("database", 0, lambda: "app")
        db.create_function("current_schema", 0, lambda: "public")
        db.create_function("schema", 0, lambda: "app")
        db.create_function("btrim", 1, lambda x: x.strip() if x is not None else None)
        db.create_function("left", 2, lambda x, n: x[:n] if x is not None else None)
        db.create_function("position", 1, lambda x: 0)
        for name, (cols, rows) in tables.items():
            db.execute("CREATE TABLE %s (%s)" % (name, ", ".join('"%s"' % c for c in cols)))
            rows = list(rows); rng.shuffle(rows)
            db.executemany("INSERT INTO %s VALUES (%s)" % (name, ",".join("?" * len(cols))), [[r.get(c) for c in cols] for r in rows])
    def run(self, text, args):
        def part(m):
            x = m.group(0)
            if x[0] in "eE" and x[1:2] == "'": return "'" + x[2:-1].encode().decode("unicode_escape") + "'"
            return "" if x.startswith("::") else x
        t = re.sub(r"--[^\n]*|\b[eE]'(?:[^'\\]|\\.|'')*'|'(?:[^']|'')*'|\"[^\"]*\"|::\w+", part, text)
        try: cur = self.db.execute(t, args)
        except sqlite3.Error as e: raise common.Machinery("the catalog query cannot be evaluated: %s\n%s" % (e, text))
        cols = [c[0] for c in cur.description]
        return cols, [list(r) for r in cur.fetchall()]

def pg_tables(items, rng):
    T, C, TC, KCU, RC, CC, IX = [], [], [], [], [], [], []
    seq = {}
    def table(schema, name, kind="BASE TABLE"): T.append(dict(table_catalog="app", table_schema=schema, table_name=name, table_type=kind))
    def column(schema, t, pos, n, ty, nn, df):
        m = re.fullmatch(r"(.*?)\s*\((\d+)(?:,\s*(\d+))?\)", ty)
        base, a, b = (m.group(1), int(m.group(2)), int(m.group(3) or 0)) if m else (ty, None, None)
        num = {"integer": (32, 0), "bigint": (64, 0), "smallint": (16, 0), "double precision": (53, None), "real": (24, None)}.get(base, (None, None))
        if base == "numeric" and m: num = (a, b)
        C.append(dict(table_catalog="app", table_schema=schema, table_name=t, column_name=n, ordinal_position=pos, column_default=df, is_nullable="NO" if nn else "YES", data_type=base,
                      character_maximum_length=a if base.startswith("char") and m else None, character_octet_length=4 * a if base.startswith("char") and m else None, numeric_precision=num[0], numeric_precision_radix=2 if num[0] else None, numeric_scale=num[1],
                      datetime_precision=6 if base.startswith("timestamp") else None, udt_name="x"))
    def cons(schema, t, n, ty): TC.append(dict(constraint_catalog="app", constraint_schema=schema, constraint_name=n, table_catalog="app", table_schema=schema, table_name=t, constraint_type=ty, is_deferrable="NO", initially_deferred="NO"))
    def key(schema, t, n, cols, inpk=None):
        for k, c in enumerate(cols, 1): KCU.append(dict(constraint_catalog="app", constraint_schema=schema, constraint_name=n, table_catalog="app", table_schema=schema, table_name=t, column_name=c, ordinal_position=k, position_in_unique_constraint=inpk[k - 1] if inpk else None))
    def index(schema, t, n, uq, cols, using="btree"):
        IX.append(dict(schemaname=schema, tablename=t, indexname=n, tablespace=None, indexdef="CREATE %sINDEX %s ON %s.%s USING %s (%s)" % ("UNIQUE " if uq else "", q(n), schema, q(t), using, ", ".join(q(c) for c in cols))))
    oid = 16384
    pks = {}
    for it in items:
        if it["e"] != "CreateTable": continue
        pks[it["t"]] = next((c for c in it["cons"] if c["kind"] == "PK"), None)
    for it in items:
        if it["e"] == "CreateIndex":
            schema, t = it["t"].split(".", 1)
            index(schema, t, it["n"], it["uq"], it["cols"], it["_using"].split()[-1] if it["_using"] else "btree"); continue
        schema, t = it["t"].split(".", 1)
        oid += 7
        table(schema, t)
        for k, n in enumerate(it["order"], 1):
            col = it["cols"][n]
            column(schema, t, k if k == 1 else k + seq.setdefault(t, rng.choice([0, 0, 3])), n, it["_raw"][n]["type"], col["nn"], it["_raw"][n]["def"] or None)
            if col["nn"]:
                nm = "2200_%d_%d_not_null" % (oid, k)
                cons(schema, t, nm, "CHECK"); CC.append(dict(constraint_catalog="app", constraint_schema=schema, constraint_name=nm, check_clause="%s IS NOT NULL" % n))
        for c in it["cons"]:
            n = c["name"]
            if c["kind"] == "CK": cons(schema, t, n, "CHECK"); CC.append(dict(constraint_catalog="app", constraint_schema=schema, constraint_name=n, check_clause=c["_expr"])); continue
            if c["kind"] == "FK":
                cons(schema, t, n, "FOREIGN KEY")
                pk = pks[c["ref"]]
                pos = [pk["cols"].index(x) + 1 for x in c["refcols"]]
                key(schema, t, n, c["cols"], pos)
                rules = dict(o.split(" ", 1) for o in c["on"])
                RC.append(dict(constraint_catalog="app", constraint_schema=schema, constraint_name=n, unique_constraint_catalog="app", unique_constraint_schema=c["ref"].split(".")[0], unique_constraint_name=pk["name"], match_option="NONE",
                               update_rule=rules.get("UPDATE", "NO ACTION"), delete_rule=rules.get("DELETE", "NO ACTION")))
                continue
            cons(schema, t, n, "PRIMARY KEY" if c["kind"] == "PK" else "UNIQUE")
            key(schema, t, n, c["cols"]); index(schema, t, n, True, c["cols"])
    # what is not of the schema: other schemas with tables, columns, keys, indexes of the same names; views; system tables
    own = [it for it in items if it["e"] == "CreateTable"]
    for it in own:
        t = it["t"].split(".", 1)[1]
        if rng.random() < .7:
            table("app", t); column("app", t, 1, it["order"][0], "text", True, "'other'::text"); column("app", t, 2, "only_there", "integer", False, None)
            cons("app", t, t + "_pkey", "PRIMARY KEY"); key("app", t, t + "_pkey", ["only_there"]); index("app", t, t + "_pkey", True, ["only_there"])
            for c in it["cons"]:
                if c["kind"] in ("CK", "FK", "UQ") and rng.random() < .7:
                    cons("app", t, c["name"], "UNIQUE"); key("app", t, c["name"], ["only_there"]); index("app", t, c["name"], True, ["only_there"])
    if own and rng.random() < .6:
        t = own[0]["t"].split(".", 1)[1]
        table("public", "a_view", "VIEW"); column("public", "a_view", 1, own[0]["order"][0], "integer", False, None)
        table("pg_catalog", "pg_class"); column("pg_catalog", "pg_class", 1, "oid", "oid", True, None)
        table("app", "elsewhere"); column("app", "elsewhere", 1, "id", "integer", True, None); index("app", "elsewhere", "elsewhere_idx", False, ["id"])
        # constraints of another schema with the names of this schema's indexes
        for it in items:
            if it["e"] == "CreateIndex": cons("app", "elsewhere", it["n"], "UNIQUE"); key("app", "elsewhere", it["n"], ["id"]); break
    cols = lambda *names: list(names)
    return {
     "information_schema.tables": (cols("table_catalog", "table_schema", "table_name", "table_type"), T),
     "information_schema.columns": (cols("table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type", "character_maximum_length", "character_octet_length", "numeric_precision", "numeric_precision_radix", "numeric_scale", "datetime_precision", "udt_name"), C),
     "information_schema.table_constraints": (cols("constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "constraint_type", "is_deferrable", "initially_deferred"), TC),
     "information_schema.key_column_usage": (cols("constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "position_in_unique_constraint"), KCU),
     "information_schema.referential_constraints": (cols("constraint_catalog", "constraint_schema", "constraint_name", "unique_constraint_catalog", "unique_constraint_schema", "unique_constraint_name", "match_option", "update_rule", "delete_rule"), RC),
     "information_schema.check_constraints": (cols("constraint_catalog", "constraint_schema", "constraint_name", "check_clause"), CC),
     "information_schema.constraint_column_usage": (cols("table_catalog", "table_schema", "table_name", "column_name", "constraint_catalog", "constraint_schema", "constraint_name"),
        [dict(table_schema=c["ref"].split(".")[0], table_name=c["ref"].split(".")[1], column_name=x, constraint_schema=it["t"].split(".")[0], constraint_name=c["name"]) for it in own for c in it["cons"] if c["kind"] == "FK" for x in c["refcols"]]),
     "pg_indexes": (cols("schemaname", "tablename", "indexname", "tablespace", "indexdef"), IX),
    }

def sp_tables(items, rng):
    T, C, CO, I, IC = [], [], [], [], []
    def table(schema, n, kind="BASE TABLE", **kw): T.append(dict(dict(TABLE_CATALOG="", TABLE_SCHEMA=schema, TABLE_NAME=n, TABLE_TYPE=kind, PARENT_TABLE_NAME=None, ON_DELETE_ACTION=None, SPANNER_STATE="COMMITTED", ROW_DELETION_POLICY_EXPRESSION=None), **kw))
    def column(schema, t, pos, n, ty, nn, df): C.append(dict(TABLE_CATALOG="", TABLE_SCHEMA=schema, TABLE_NAME=t, COLUMN_NAME=n, ORDINAL_POSITION=pos, COLUMN_DEFAULT=df, IS_NULLABLE="NO" if nn else "YES", SPANNER_TYPE=ty, IS_GENERATED="NEVER"))
    def index(schema, t, n, ty, uq, cols, dirs, managed=False):
        I.append(dict(TABLE_CATALOG="", TABLE_SCHEMA=schema, TABLE_NAME=t, INDEX_NAME=n, INDEX_TYPE=ty, PARENT_TABLE_NAME="", IS_UNIQUE=1 if uq else 0, IS_NULL_FILTERED=0, INDEX_STATE="READ_WRITE", SPANNER_IS_MANAGED=1 if managed else 0))
        for k, (c, o) in enumerate(zip(cols, dirs), 1): IC.append(dict(TABLE_CATALOG="", TABLE_SCHEMA=schema, TABLE_NAME=t, INDEX_NAME=n, INDEX_TYPE=ty, COLUMN_NAME=c, ORDINAL_POSITION=k, COLUMN_ORDERING=o, IS_NULLABLE="YES", SPANNER_TYPE="INT64"))
    for it in items:
        if it["e"] == "CreateIndex": index("", it["t"], it["n"], "INDEX", it["uq"], it["cols"], it["dirs"]); continue
        t = it["t"]
        il = it["il"]
        table("", t, PARENT_TABLE_NAME=il["parent"] or None, ON_DELETE_ACTION=(il["act"] or "NO ACTION") if il["parent"] else None, ROW_DELETION_POLICY_EXPRESSION=it["_ttl"][1:-1] if it["ttl"] else rng.choice([None, ""]))
        for k, n in enumerate(it["order"], 1):
            df = it["_raw"][n]["def"]
            column("", t, k, n, it["_raw"][n]["type"], it["cols"][n]["nn"], df[1:-1] if df else None)
            if it["cols"][n]["opts"]: CO.append(dict(TABLE_CATALOG="", TABLE_SCHEMA="", TABLE_NAME=t, COLUMN_NAME=n, OPTION_NAME="allow_commit_timestamp", OPTION_TYPE="BOOL", OPTION_VALUE="TRUE" if "TRUE" in it["_raw"][n]["opts"].upper() else "FALSE"))
        for c in it["cons"]:
            if c["kind"] == "PK": index("", t, "PRIMARY_KEY", "PRIMARY_KEY", True, c["cols"], c["dirs"])
    own = [it for it in items if it["e"] == "CreateTable"]
    for it in own:
        t = it["t"]
        if rng.random() < .6:
            table("sch", t, ROW_DELETION_POLICY_EXPRESSION=None)
            column("sch", t, 1, it["order"][0], "BYTES(MAX)", True, "b'other'"); column("sch", t, 2, "only_there", "INT64", False, None)
            index("sch", t, "PRIMARY_KEY", "PRIMARY_KEY", True, ["only_there"], ["ASC"]); index("sch", t, "idx_there", "INDEX", False, ["only_there"], ["DESC"])
            CO.append(dict(TABLE_SCHEMA="sch", TABLE_NAME=t, COLUMN_NAME=it["order"][0], OPTION_NAME="allow_commit_timestamp", OPTION_TYPE="BOOL", OPTION_VALUE="FALSE"))
        if rng.random() < .4: index("", t, "IDX_%s_%s_1234ABCD" % (t, it["order"][-1]), "INDEX", False, [it["order"][-1]], ["ASC"], True)
    if rng.random() < .5:
        table("INFORMATION_SCHEMA", "TABLES", "VIEW"); column("INFORMATION_SCHEMA", "TABLES", 1, "TABLE_NAME", "STRING(100)", True, None)
        table("", "a_view", "VIEW"); column("", "a_view", 1, "id", "INT64", False, None)
    base = ["TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME"]
    return {
     "information_schema.TABLES": (base + ["TABLE_TYPE", "PARENT_TABLE_NAME", "ON_DELETE_ACTION", "SPANNER_STATE", "ROW_DELETION_POLICY_EXPRESSION"], T),
     "information_schema.COLUMNS": (base + ["COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_DEFAULT", "IS_NULLABLE", "SPANNER_TYPE", "IS_GENERATED"], C),
     "information_schema.COLUMN_OPTIONS": (base + ["COLUMN_NAME", "OPTION_NAME", "OPTION_TYPE", "OPTION_VALUE"], CO),
     "information_schema.INDEXES": (base + ["INDEX_NAME", "INDEX_TYPE", "PARENT_TABLE_NAME", "IS_UNIQUE", "IS_NULL_FILTERED", "INDEX_STATE", "SPANNER_IS_MANAGED"], I),
     "information_schema.INDEX_COLUMNS": (base + ["INDEX_NAME", "INDEX_TYPE", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_ORDERING", "IS_NULLABLE", "SPANNER_TYPE"], IC),
    }

def my_tables(names, rng):
    rows = [dict(TABLE_CATALOG="def", TABLE_SCHEMA="app", TABLE_NAME=n, TABLE_TYPE="BASE TABLE") for n in names]
    if names and rng.random() < .7: rows.append(dict(TABLE_CATALOG="def", TABLE_SCHEMA="other", TABLE_NAME=rng.choice(names + ["elsewhere"]), TABLE_TYPE="BASE TABLE"))
    if rng.random() < .5: rows.append(dict(TABLE_CATALOG="def", TABLE_SCHEMA="app", TABLE_NAME="a_view", TABLE_TYPE="VIEW"))
    rows.append(dict(TABLE_CATALOG="def", TABLE_SCHEMA="mysql", TABLE_NAME="user", TABLE_TYPE="BASE TABLE"))
    return {"information_schema.TABLES": (["TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE"], rows)}

class Answers:
    """answers to the catalog queries of a database of dialect d that holds items"""
    def __init__(self, d, items, rng):
        self.d, self.items = d, items
        self.decls = []                           # what the database itself prints (MySQL, CockroachDB)
        own = [it for it in items if it["e"] == "CreateTable"]
        if d == "mysql":
            st = render.Style(d, random.Random(7), case=None, quote=1, syn=0, null=0, asc=0, inline=0)
            self.stm = {it["t"]: my_case(render.statement(it, st)) for it in own}
            self.sq = Sqlite(my_tables(list(self.stm), rng), rng)
            self.decls = list(self.stm.values())
        elif d == "cockroachdb":
            st = render.Style(d, random.Random(7), quote=0, null=1, asc=1, inline=0)
            self.decls = [render.statement(it, st) for it in own]
            rng.shuffle(self.decls)
        else: self.sq = Sqlite((pg_tables if d == "postgres" else sp_tables)(items, rng), rng)
    def script(self): return ";\n".join(self.decls) + ";\n" if self.decls else ""
    def query(self, text, args):
        d = self.d
        w = " ".join(re.sub(r"--[^\n]*", "", text).replace(";", " ").split())
        if d == "cockroachdb":
            if w.upper() == "SHOW CREATE ALL TABLES": return ["create_statement"], [[s + ";"] for s in self.decls]
            raise fakedb.DBError("pq: at or near \"%s\": syntax error" % w[:20])
        if d == "mysql":
            m = re.fullmatch(r"(?i)SHOW CREATE TABLE (?:`([^`]+)`|(\w+))", w)
            if m:
                n = m.group(1) or m.group(2)
                if n == "a_view": return ["View", "Create View", "character_set_client", "collation_connection"], [[n, "CREATE VIEW `a_view` AS select 1", "utf8mb4", "utf8mb4_bin"]]
                if n not in self.stm: raise fakedb.DBError("Error 1146: Table 'app.%s' doesn't exist" % n)
                return ["Table", "Create Table"], [[n, self.stm[n]]]
        cols, rows = self.sq.run(text, args)
        if d == "spanner":
            for r in rows:
                for k, c in enumerate(cols):
                    if c in ("IS_UNIQUE", "SPANNER_IS_MANAGED", "IS_NULL_FILTERED") and r[k] is not None: r[k] = bool(r[k])
        return cols, rows

def my_case(s):
    """types in lower case, as SHOW CREATE TABLE prints them"""
    return re.sub(r"(`\s+)([A-Z]+)(?=[\s(,])", lambda m: m.group(1) + (m.group(2).lower() if m.group(2) in ("INTEGER", "INT", "BIGINT", "SMALLINT", "DECIMAL", "VARCHAR", "TEXT", "CHAR", "DATETIME", "TIMESTAMP", "DATE", "JSON", "DOUBLE", "TINYINT", "ENUM", "BIT", "TIME", "MEDIUMTEXT", "LONGTEXT") else m.group(2)), s)
