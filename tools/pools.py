"""Concrete values for the symbolic types / defaults / expressions of the scenario specifications."""
# theme: T types (pairwise different), D defaults, X check templates ({c} = column)
PG = [
 dict(T=["INTEGER", "BIGINT", "SMALLINT", "NUMERIC(10, 2)"], D=["0", "42", "(1 + 2)", "-1"], X=["({c} > 0)", "({c} >= 10 AND {c} <= 20)", "({c} <> 5)", "({c} IN (1, 2, 3))"]),
 dict(T=["TEXT", "VARCHAR(64)", "VARCHAR(255)", "CHARACTER VARYING(32)"], D=["'x'", "''", "'a b; c'", "'--dash'", "'(p'", "'l1\n\n-- l2;\n '", "'x'::text", "upper('q')", "'a' || 'b'", "'it''s'", "'100% %d'", "'a\r\nb'", "'t\tab  x'"],
      X=["({c} <> '')", "(char_length({c}) > 3)", "({c} = 'a' OR {c} = 'b')", "({c} IS NOT NULL)", "({c} <> 'it''s')", "({c} <> ';')", "({c} <> '--')", "({c} LIKE '%s')", "({c} <> 'a\r\nb')"]),
 dict(T=["BOOLEAN", "INTEGER", "TEXT"], D=["TRUE", "FALSE", "NULL", "'TRUE'", "'f'"], X=["({c} = TRUE)", "({c} IS NOT NULL)", "(NOT ({c} = FALSE))"]),
 dict(T=["TIMESTAMP WITH TIME ZONE", "TIMESTAMP", "TEXT"], D=["now()", "CURRENT_TIMESTAMP", "timezone('utc'::text, now())", "'2020-01-01'", "(now() + '1 day'::interval)"],
      X=["({c} > '2020-01-01')", "({c} IS NOT NULL)"]),
 dict(T=["UUID", "TEXT", "VARCHAR(36)"], D=["gen_random_uuid()", "'00000000-0000-0000-0000-000000000000'"], X=["({c} IS NOT NULL)", "({c} <> '0')"]),
 dict(T=["JSONB", "TEXT", "VARCHAR(99)"], D=["'{}'", "'{}'::jsonb", "'[1, 2]'"], X=["({c} <> '{}')", "({c} IS NOT NULL)"]),
 dict(T=["DOUBLE PRECISION", "REAL", "DECIMAL(8)", "NUMERIC(8, 3)"], D=["0.5", "1.5", "(3 * 7)"], X=["({c} < 100.5)", "(({c} * 2) < 7)", "({c} + 1 > 0 AND ({c} - 1 < 5 OR {c} = 9))"]),
 dict(T=["SERIAL", "BIGSERIAL", "SMALLSERIAL", "INTEGER"], D=["1", "2"], X=["({c} > 0)", "({c} > 1)"]),
]
CRDB = [
 dict(T=["INT8", "INT4", "INT2", "DECIMAL(10, 2)"], D=["0", "42", "0:::INT8", "(1 + 2)"], X=["({c} > 0)", "({c} >= 10:::INT8 AND {c} <= 20)", "({c} IN (1, 2, 3))"]),
 dict(T=["STRING", "VARCHAR(64)", "VARCHAR(255)", "UUID"], D=["'x'", "''", "'x':::STRING", "'a b; c'", "'--dash'", "'l1\n\n-- l2;\n '", "upper('q')", "'a' || 'b'", "'it''s'", "'100% %d'", "'a\r\nb'", "'t\tab  x'"],
      X=["({c} LIKE '%s')", "({c} <> '')", "({c} <> '':::STRING)", "(length({c}) > 3)", "({c} = 'a' OR {c} = 'b')", "({c} IS NOT NULL)", "({c} <> ';')"]),
 dict(T=["BOOL", "INT8", "STRING"], D=["TRUE", "FALSE", "NULL", "'true'", "'FALSE'"], X=["({c} = TRUE)", "({c} IS NOT NULL)"]),
 dict(T=["TIMESTAMPTZ", "TIMESTAMP", "STRING"], D=["now()", "now():::TIMESTAMPTZ", "CURRENT_TIMESTAMP", "timezone('UTC':::STRING, current_timestamp():::TIMESTAMPTZ)"], X=["({c} > '2020-01-01')", "({c} IS NOT NULL)"]),
 dict(T=["UUID", "STRING", "VARCHAR(36)"], D=["gen_random_uuid()", "'00000000-0000-0000-0000-000000000000':::UUID"], X=["({c} IS NOT NULL)", "({c} <> '0')"]),
 dict(T=["JSONB", "STRING", "VARCHAR(99)"], D=["'{}'", "'{}':::JSONB"], X=["({c} <> '{}')", "({c} IS NOT NULL)"]),
 dict(T=["FLOAT8", "FLOAT4", "DECIMAL(8, 3)"], D=["0.5", "1.5"], X=["({c} < 100.5)", "({c} + 1 > 0)"]),
]
MY = [
 dict(T=["INTEGER", "BIGINT", "SMALLINT", "DECIMAL(10, 2)"], D=["0", "42", "(1 + 2)", "'7'"], X=["({c} > 0)", "({c} >= 10 AND {c} <= 20)", "({c} <> 5)", "({c} IN (1, 2, 3))"], int=True),
 dict(T=["VARCHAR(64)", "VARCHAR(255)", "TEXT", "CHAR(8)", "MEDIUMTEXT", "LONGTEXT"], D=["'x'", "''", "'a b; c'", "'--dash'", "'l1\n\n-- l2;\n '", "NULL", "('q')", "'it''s'", "'100% %d'", "'a\r\nb'", "'t\tab  x'"],
      X=["({c} LIKE '%s')", "({c} <> '')", "(char_length({c}) > 3)", "({c} = 'a' OR {c} = 'b')", "({c} IS NOT NULL)", "({c} <> ';')"]),
 dict(T=["BOOLEAN", "INTEGER", "VARCHAR(5)"], D=["TRUE", "FALSE", "NULL", "0"], X=["({c} = TRUE)", "({c} IS NOT NULL)"]),
 dict(T=["DATETIME", "TIMESTAMP", "DATE"], D=["CURRENT_TIMESTAMP", "NULL", "'2020-01-01 00:00:00'", "now()"], X=["({c} > '2020-01-01')", "({c} IS NOT NULL)"], ts=True),
 dict(T=["JSON", "TEXT", "VARCHAR(99)"], D=["NULL", "('{}')"], X=["({c} <> '{}')", "({c} IS NOT NULL)"]),
 dict(T=["DOUBLE", "DOUBLE(8, 2)", "DECIMAL(8, 3)", "NUMERIC(9)"], D=["0.5", "1.5"], X=["({c} < 100.5)", "({c} + 1 > 0)"]),
 dict(T=["ENUM('a', 'b')", "ENUM('a', 'b', 'c')", "VARCHAR(3)"], D=["'a'", "'b'"], X=["({c} <> 'c')", "({c} = 'a')"]),
 dict(T=["BIT(1)", "TINYINT(1)", "TIME"], D=["0", "1"], X=["({c} = 1)", "({c} = 0)"]),
]
SP = [
 dict(T=["INT64", "NUMERIC", "FLOAT64"], D=["(0)", "(42)", "(1 + 2)"], X=["({c} > 0)", "({c} >= 10 AND {c} <= 20)", "({c} <> 5)", "({c} IN (1, 2, 3))"]),
 dict(T=["STRING(64)", "STRING(255)", "STRING(MAX)"], D=["('x')", "('')", "('a b; c')", "('l1\n\n-- l2;\n ')", "(GENERATE_UUID())", "('--dash')", "('100% %d')", "('a\r\nb')", "('t\tab  x')"],
      X=["({c} LIKE '%s')", "({c} <> '')", "(CHAR_LENGTH({c}) > 3)", "({c} = 'a' OR {c} = 'b')", "({c} IS NOT NULL)", "({c} <> ';')"]),
 dict(T=["BOOL", "INT64", "STRING(5)"], D=["(TRUE)", "(FALSE)"], X=["({c} = TRUE)", "({c} IS NOT NULL)"]),
 dict(T=["TIMESTAMP", "STRING(32)", "INT64"], D=["(CURRENT_TIMESTAMP())", "(TIMESTAMP_SECONDS(0))"], X=["({c} > TIMESTAMP_SECONDS(0))", "({c} IS NOT NULL)"], spts=True),
 dict(T=["JSON", "STRING(99)", "STRING(MAX)"], D=["(JSON_OBJECT())", "('{}')"], X=["({c} IS NOT NULL)", "({c} <> '{}')"]),
]
POOLS = {"postgres": PG, "cockroachdb": CRDB, "mysql": MY, "spanner": SP}

ATTR = {
 "charset": ["utf8mb4", "latin1", "utf8"],
 "collate": ["utf8mb4_bin", "utf8mb4_0900_ai_ci", "latin1_swedish_ci"],
 "comment": ["'note'", "'a; b'", "'it''s'", "'--x'", "'COMMENT'", "'one\n;two'", "'5% %s'", "'a\r\nb'"],
 "onup": ["CURRENT_TIMESTAMP"],
 "gen": ["(lower('x')) STORED", "(1 + 2) VIRTUAL", "(concat('a', 'b;c')) STORED", "(mod(fnv32(crdb_internal.datums_to_bytes(id)), 16:::INT8)) VIRTUAL"],
 "opts": ["(allow_commit_timestamp = true)", "(allow_commit_timestamp = false)"],
}
OPTS = {
 "ENGINE": ["InnoDB", "MyISAM"], "CHARSET": ["utf8mb4", "latin1"], "COLLATE": ["utf8mb4_bin", "utf8mb4_general_ci"], "COMMENT": ["'t one'", "'t; two'", "'it''s'", "'5% %s'", "'a\r\nb'"],
}
TTL = ["(OLDER_THAN({ts}, INTERVAL 30 DAY))", "(OLDER_THAN({ts}, INTERVAL 0 DAY))", "(OLDER_THAN({ts}, INTERVAL 365 DAY))"]

# (raw name, must be quoted)
TABLES = [[("users", 0), ("orders", 0), ("items", 0)], [("order", 1), ("group", 1), ("user", 1)], [("t_1", 0), ("tbl2", 0), ("x", 0)],
          [("account_books", 0), ("account", 0), ("account_book", 0)]]
QTABLES = [[("public.users", 0), ("public.orders", 0), ("public.items", 0)], [("app.a", 0), ("app.b", 0), ("zoo.c", 0)]]
COLS = [[("id", 0), ("name", 0), ("ref_id", 0), ("note", 0)], [("user_id", 0), ("group", 1), ("order", 1), ("select", 1)], [("c1", 0), ("c2", 0), ("c10", 0), ("c", 0)],
        [("a", 0), ("ab", 0), ("abc", 0), ("b", 0)], [("table_id", 0), ("index", 1), ("primary_x", 0), ("table", 1)]]
# names that have to be quoted: letters of both cases (distinct names only where the database tells them apart), spaces, dashes
XCOLS = {"postgres": [[("id", 0), ("Id", 1), ("ID", 1), ("iD", 1)], [("userId", 1), ("userid", 0), ("my col", 1), ("a-b", 1)]],
         "mysql": [[("userId", 0), ("Group", 1), ("my col", 1), ("a-b", 1)]], "spanner": []}
XCOLS["cockroachdb"] = XCOLS["postgres"]
XTABLES = {"postgres": [[("Users", 1), ("users", 0), ("USERS", 1)], [("my table", 1), ("Orders-2", 1), ("items", 0)]],
           "mysql": [[("my table", 1), ("orders-2", 1), ("Items", 0)]], "spanner": []}
XTABLES["cockroachdb"] = XTABLES["postgres"]
IDXS = [["idx_one", "idx_two", "idx_three"], ["i", "i2", "i_3"], ["users_idx", "users_idx_2", "uq_idx"]]

USING = {"postgres": ["USING hash", "USING gin", "USING brin"], "cockroachdb": ["USING HASH WITH (bucket_count = 16)", "USING HASH WITH (bucket_count = 8)", "USING HASH"]}

# ---- the whole supported vocabulary, for the checks of parsing and printing (types and values need not fit together)
WX = ["({c} != 5)", "({c} <= 5)", "({c}>=5)", "({c}<>5)", "({c} BETWEEN 1 AND 9)", "({c} LIKE 'a%')", "({c} NOT LIKE '%_x')", "({c} IN ('a','b'))", "({c} NOT IN (1,2))",
      "({c} % 2 = 0)", "({c} IS NULL OR {c} > 0)", "(NOT ({c} = 1))", "(CASE WHEN {c} > 0 THEN TRUE ELSE FALSE END)", "(lower({c}) = {c})", "(({c}))", "(length(trim({c})) > 0)",
      "({c} - 1 > 0)", "({c} > -1)", "({c} * 2 / 3 + 1 < 4)", "(coalesce({c}, 0) > 0)", "(nullif({c}, 0) IS NOT NULL)", "({c} <> '')", "({c} = 'x''y')", "({c} > 1e3)", "({c} > 0.50)",
      "({c} = 'ünï')", "({c} = 'a\nb')", "({c} <> 'CHECK (x)')", "({c} <> 'a, b')", "({c} <> ')')", "({c} = TRUE)", "({c} IS NOT NULL)", "(a_func({c}, (1 + (2 * (3 - 4)))) > 0)",
      "({c} <> 'NOT NULL')", "({c} <> 'PRIMARY KEY')", "(char_length({c}) BETWEEN 1 AND 64)", "({c} & 1 = 0)", "({c} ^ 2 > 1)", "(extract(year from {c}) > 2000)", "({c} <> ' ')", "({c} <> '  a  b ')", "({c} <> 'TAB\there')"]
WD = ["0", "1.5", "1e3", "0x1F", "'x'", "''", "'a''b'", "'-'", "'--'", "';'", "','", "')'", "'('", "'ünï'", "'a\nb'", "'DEFAULT'", "'NOT NULL'", "' '", "'  a  '", "NULL", "TRUE", "FALSE", "false", "now()", "NOW()", "(now())",
      "CURRENT_DATE", "(1 + (2 * 3))", "(5 - 3)", "uuid_generate_v4()", "concat('a', 'b')", "concat('a', concat('b', 'c'))", "my.func(1)", "('q')", "(-1)", "CURRENT_TIMESTAMP", "current_timestamp(6)", "b'0'", "x'1f'"]
WPG = ["-1", "+1", "'x'::character varying", "'x'::text", "nextval('s'::regclass)", "'{}'::jsonb", "'a' || 'b'", "1 + 2", "5 - 3", "1::int", "interval '1 day'", "CAST(1 AS INTEGER)", "E'a\\n'", "timezone('utc'::text, now())", "(now() + '1 day'::interval)"]
WIDE = {
 "postgres": dict(T=["BOOLEAN", "SMALLINT", "INTEGER", "INT", "BIGINT", "DECIMAL", "DECIMAL(8)", "DECIMAL(8, 2)", "NUMERIC", "NUMERIC(10, 2)", "REAL", "DOUBLE PRECISION", "SMALLSERIAL", "SERIAL", "BIGSERIAL", "UUID", "JSONB",
      "CHARACTER VARYING", "CHARACTER VARYING(7)", "VARCHAR", "VARCHAR(255)", "TEXT", "TIMESTAMP", "TIMESTAMP(6)", "TIMESTAMPTZ", "TIMESTAMP WITH TIME ZONE"],
      D=WD + WPG, X=WX + ["({c}::text = 'x'::text)", "({c} ~ '^[a-z]+$')", "({c}->>'k' = 'v')", "({c} @> '{}')", "({c} = E'\\n')", "({c} = 'a' || 'b')", "({c} = ANY (ARRAY['a', 'b']))"]),
 "cockroachdb": dict(T=["BOOL", "BOOLEAN", "INT2", "INT4", "INT8", "INT", "INTEGER", "SMALLINT", "BIGINT", "DECIMAL", "DECIMAL(8, 2)", "NUMERIC(10, 2)", "REAL", "DOUBLE PRECISION", "FLOAT4", "FLOAT8", "SMALLSERIAL", "SERIAL", "BIGSERIAL", "UUID", "JSONB",
      "CHARACTER VARYING(7)", "VARCHAR", "VARCHAR(255)", "STRING", "STRING(8)", "TEXT", "TIMESTAMP", "TIMESTAMP(6)", "TIMESTAMPTZ", "TIMESTAMPTZ(6)", "TIMESTAMP WITH TIME ZONE"],
      D=WD + WPG + ["0:::INT8", "'x':::STRING", "now():::TIMESTAMPTZ", "'{}':::JSONB", "unique_rowid()"], X=WX + ["({c} > 0:::INT8)", "({c} <> '':::STRING)", "({c}->>'k' = 'v')", "({c} IN (1:::INT8, 2:::INT8))", "({c} = 'a' || 'b')"]),
 "mysql": dict(T=["BOOLEAN", "BIT(1)", "BIT", "TINYINT", "TINYINT(1)", "SMALLINT", "INTEGER", "INT", "INT(11)", "BIGINT", "BIGINT(20)", "DECIMAL", "DECIMAL(8, 2)", "NUMERIC(10, 2)", "REAL", "DOUBLE", "DOUBLE PRECISION", "JSON", "CHAR(3)", "CHARACTER VARYING(7)",
      "VARCHAR(255)", "TEXT", "MEDIUMTEXT", "LONGTEXT", "DATETIME", "DATETIME(6)", "TIMESTAMP", "TIMESTAMP(6)", "DATE", "TIME", "ENUM('a','b')", "ENUM('x y', 'it''s', 'ü', ';', ')', ',')"],
      D=WD + ["\"dq\"", "'it\\'s'", "_utf8mb4'a'"], X=WX + ["({c} <=> 1)", "({c} && 1)", "({c} || 0)", "({c} REGEXP '^a')", "(json_valid({c}))", "({c}->'$.a' = 1)"]),
 "spanner": dict(T=["BOOL", "INT64", "NUMERIC", "FLOAT64", "JSON", "STRING(MAX)", "STRING(255)", "TIMESTAMP"],
      D=["(%s)" % x for x in WD if not x.startswith("(") and "x'1f'" not in x] + ["(GENERATE_UUID())", "(PENDING_COMMIT_TIMESTAMP())", "(JSON '{}')", "(1 + (2 * 3))", "(\"dq\")", "('it\\'s')"], X=WX + ["({c} || 'x' = 'yx')", "(REGEXP_CONTAINS({c}, r'^a'))", "(STARTS_WITH({c}, \"a\"))"]),
}
