"""Independent reader of SQL DDL text: tokenizer, canonical forms, statements -> events.

It shares nothing with the code under test.  It is deliberately generous about layout and
about optional keywords, and strict about meaning: every token of a statement must be
understood, otherwise the statement becomes an "Unreadable" event (rejected by the spec)."""
import re

DIALECTS = ("postgres", "cockroachdb", "mysql", "spanner")

# ---------------------------------------------------------------- tokens
OPS = ["::::", ":::", "!~~*", "!~~", "~~*", "!~*", "->>", "<=>", "#>>", "!~", "~*", "<<", ">>", "?|", "?&", "||", "::", "->", "#>", "<=", ">=", "<>", "!=", "&&", "@>", "<@", ":=", "~~"]
WORD = re.compile(r"[A-Za-z_\u0080-\uffff][A-Za-z0-9_$\u0080-\uffff]*")
PREFIX = re.compile(r"([A-Za-z_][A-Za-z0-9_]*)'")
PREFIXES = dict(postgres=("B", "E", "N", "X"), cockroachdb=("B", "E", "X"), mysql=("B", "N", "X"), spanner=("B", "BR", "R", "RB"))
NUM = re.compile(r"(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?")

class SqlError(Exception):
    pass

class Tok:
    __slots__ = ("k", "v", "raw", "pos", "end")
    def __init__(self, k, v, raw, pos): self.k, self.v, self.raw, self.pos = k, v, raw, pos
    def __repr__(self): return "%s:%s" % (self.k, self.raw)

def tokenize(text, d):
    """kinds: w word, q quoted identifier, s string literal, n number, o operator/punctuation"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1; continue
        if text.startswith("--", i) or (c == "#" and d in ("mysql", "spanner")):
            j = text.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0: raise SqlError("unterminated comment")
            i = j + 2; continue
        if c == "'" or (c == '"' and d in ("mysql",)):
            j = i + 1
            while True:
                if j >= n: raise SqlError("unterminated literal")
                if text[j] == "\\" and d in ("mysql", "spanner"): j += 2; continue
                if text[j] == c:
                    if text.startswith(c + c, j): j += 2; continue
                    break
                j += 1
            body = text[i + 1:j]
            out.append(Tok("s", body, text[i:j + 1], i)); i = j + 1; continue
        if c == '"' or c == "`":
            j = text.find(c, i + 1)
            if j < 0: raise SqlError("unterminated quoted identifier")
            body = text[i + 1:j]
            kind = "s" if (c == '"' and d == "spanner") else "q"
            out.append(Tok(kind, body, text[i:j + 1], i)); i = j + 1; continue
        m = NUM.match(text, i)
        if m:
            out.append(Tok("n", m.group(), m.group(), i)); i = m.end(); continue
        m = PREFIX.match(text, i)
        if m and m.group(1).upper() in PREFIXES[d] + ((m.group(1).upper(),) if d == "mysql" and m.group(1)[0] == "_" else ()):
            esc = d in ("mysql", "spanner") or m.group(1).upper() == "E"
            j = m.end()
            while True:
                if j >= n: raise SqlError("unterminated literal")
                if text[j] == "\\" and esc: j += 2; continue
                if text[j] == "'":
                    if text.startswith("''", j): j += 2; continue
                    break
                j += 1
            out.append(Tok("p", m.group(1).upper() + text[m.end() - 1:j + 1], text[i:j + 1], i)); i = j + 1; continue
        m = WORD.match(text, i)
        if m:
            out.append(Tok("w", m.group(), m.group(), i)); i = m.end(); continue
        for op in OPS:
            if text.startswith(op, i):
                out.append(Tok("o", op, op, i)); i += len(op); break
        else:
            out.append(Tok("o", c, c, i)); i += 1
    return out

def split_statements(toks):
    out, cur = [], []
    for t in toks:
        if t.k == "o" and t.v == ";":
            if cur: out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur: out.append(cur)
    return out

# ---------------------------------------------------------------- canonical forms
SIMPLE = re.compile(r"^[a-z_][a-z0-9_]*$")
def ident(t, d):
    """canonical identifier (what the database would call the object)"""
    if t.k == "w":
        return t.v.lower() if d in ("postgres", "cockroachdb") else t.v
    return t.v

def canon_expr(toks, d):
    """canonical text of an expression: one space between tokens, unquoted words upper case"""
    out = []
    for t in toks:
        if t.k == "w": out.append(t.v.upper())
        elif t.k == "q":
            if SIMPLE.match(t.v) or d in ("mysql", "spanner"): out.append(t.v.upper())
            else: out.append('"' + t.v + '"')
        elif t.k == "s": out.append("'" + t.v + "'")
        else: out.append(t.v)
    # '( a )' == 'a' at the outermost level is NOT folded: defaults keep their parentheses
    return " ".join(out)

TYPE_SYN = {
    "postgres": {"INT": "INTEGER", "INT4": "INTEGER", "INT2": "SMALLINT", "INT8": "BIGINT", "BOOL": "BOOLEAN",
                 "TIMESTAMPTZ": "TIMESTAMP WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE": "TIMESTAMP", "VARCHAR": "CHARACTER VARYING", "FLOAT8": "DOUBLE PRECISION",
                 "FLOAT4": "REAL", "DECIMAL": "NUMERIC", "SERIAL4": "SERIAL", "SERIAL2": "SMALLSERIAL", "SERIAL8": "BIGSERIAL"},
    "cockroachdb": {"INT": "INT4", "INTEGER": "INT4", "BIGINT": "INT8", "SMALLINT": "INT2", "INT4": "INT4", "INT64": "INT8", "BOOLEAN": "BOOL",
                    "TEXT": "STRING", "CHARACTER VARYING": "VARCHAR", "TIMESTAMP WITH TIME ZONE": "TIMESTAMPTZ",
                    "DOUBLE PRECISION": "FLOAT8", "FLOAT": "FLOAT8", "REAL": "FLOAT4", "NUMERIC": "DECIMAL", "DEC": "DECIMAL"},
    "mysql": {"INT": "INTEGER", "BOOL": "TINYINT ( 1 )", "BOOLEAN": "TINYINT ( 1 )", "CHARACTER VARYING": "VARCHAR", "DEC": "DECIMAL",
              "NUMERIC": "DECIMAL", "DOUBLE PRECISION": "DOUBLE", "REAL": "DOUBLE"},
    "spanner": {"BOOLEAN": "BOOL"},
}
def canon_type(toks, d):
    s = canon_expr(toks, d)
    base, sep, args = s.partition(" (")
    syn = TYPE_SYN[d]
    if base in syn: base = syn[base]
    return (base + sep + args).strip()

# ---------------------------------------------------------------- cursor
class Cur:
    def __init__(self, toks, d): self.t, self.i, self.d = toks, 0, d
    def eof(self): return self.i >= len(self.t)
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def at(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if t is None: return False
            if w.isalpha() or "_" in w:
                if t.k != "w" or t.v.upper() != w: return False
            elif t.k != "o" or t.v != w: return False
        return True
    def eat(self, *words):
        if self.at(*words):
            self.i += len(words); return True
        return False
    def need(self, *words):
        if not self.eat(*words):
            raise SqlError("expected %s at %r" % (" ".join(words), self.t[self.i:self.i + 4]))
    def name(self):
        t = self.peek()
        if t is None or t.k not in ("w", "q"): raise SqlError("expected a name at %r" % (self.t[self.i:self.i + 4],))
        self.i += 1
        return ident(t, self.d)
    def qname(self):
        """possibly schema-qualified name: s.t, "s"."t" and the tool's "s.t" """
        n = self.name()
        while self.eat("."):
            n += "." + self.name()
        return n
    def next(self):
        t = self.peek()
        if t is None: raise SqlError("unexpected end of statement")
        self.i += 1
        return t
    def parens(self):
        """tokens of a balanced (...) including the parentheses"""
        if not self.at("("): raise SqlError("expected ( at %r" % (self.t[self.i:self.i + 4],))
        start, depth = self.i, 0
        while True:
            t = self.next()
            if t.k == "o" and t.v == "(": depth += 1
            elif t.k == "o" and t.v == ")":
                depth -= 1
                if depth == 0: return self.t[start:self.i]
    def until(self, stop):
        """tokens up to (excluding) the first depth-0 position where stop(cur) holds, a comma, a closing paren, or the end"""
        start, depth = self.i, 0
        while not self.eof():
            t = self.peek()
            if depth == 0 and (stop(self) or (t.k == "o" and t.v in (",", ")"))): break
            if t.k == "o" and t.v == "(": depth += 1
            if t.k == "o" and t.v == ")": depth -= 1
            self.i += 1
        return self.t[start:self.i]

COLSTOP = [("NOT",), ("NULL",), ("DEFAULT",), ("PRIMARY", "KEY"), ("UNIQUE",), ("REFERENCES",), ("CHECK",), ("CONSTRAINT",),
           ("COLLATE",), ("CHARACTER", "SET"), ("CHARSET",), ("AUTO_INCREMENT",), ("ON", "UPDATE"), ("ON", "DELETE"), ("COMMENT",), ("OPTIONS",),
           ("AS",), ("STORED",), ("VIRTUAL",), ("GENERATED",), ("INVISIBLE",), ("VISIBLE",)]
def colstop(cur, first):
    for s in COLSTOP:
        if cur.at(*s):
            if first and s == ("NULL",): return False   # DEFAULT NULL
            return True
    return False

def newcol():
    return dict(type="", **{"def": ""}, nn=False, charset="", collate="", ai=False, onup="", comment="", opts="", gen="", vis="")

def newcons(kind, cols=(), name="", inline=False):
    return dict(name=name, kind=kind, cols=list(cols), dirs=["ASC"] * len(cols), ref="", refcols=[], expr="", on=[], words=[], inline=inline, using="")

def keylist(cur):
    """(a, b DESC, `c` ASC) -> names, directions"""
    cur.need("(")
    cols, dirs = [], []
    while not cur.eat(")"):
        cols.append(cur.name())
        if cur.eat("DESC"): dirs.append("DESC")
        else:
            cur.eat("ASC"); dirs.append("ASC")
        if not cur.eat(","):
            cur.need(")"); break
    return cols, dirs

def fk_tail(cur, c):
    c["ref"] = cur.qname()
    if cur.at("("):
        c["refcols"], _ = keylist(cur)
    on = []
    while cur.at("ON"):
        cur.need("ON")
        which = cur.next().v.upper()
        if which not in ("DELETE", "UPDATE"): raise SqlError("ON " + which)
        if cur.eat("NO", "ACTION"): act = "NO ACTION"
        elif cur.eat("CASCADE"): act = "CASCADE"
        elif cur.eat("RESTRICT"): act = "RESTRICT"
        elif cur.eat("SET", "NULL"): act = "SET NULL"
        elif cur.eat("SET", "DEFAULT"): act = "SET DEFAULT"
        else: raise SqlError("foreign key action at %r" % (cur.t[cur.i:cur.i + 3],))
        if act != "NO ACTION" or True:
            on.append(which + " " + act)
    c["on"] = sorted(on)

EXPRKW = {"AND", "OR", "NOT", "IS", "IN", "BETWEEN", "LIKE", "CASE", "WHEN", "THEN", "ELSE", "END", "TRUE", "FALSE", "NULL", "CURRENT_TIMESTAMP", "CURRENT_DATE", "INTERVAL"}
def words(toks, d):
    """the names an expression mentions"""
    return sorted({ident(t, d) for t in toks if t.k == "q" or (t.k == "w" and t.v.upper() not in EXPRKW)})

def set_check(c, toks, d):
    c["expr"] = canon_expr(toks, d)
    c["words"] = words(toks, d)

def base(t):
    return t.rsplit(".", 1)[-1]

def column_def(cur, cname, allow_cons=True):
    """reads a column definition after its name; returns (col, inline constraints)"""
    d = cur.d
    col, cons = newcol(), []
    tt = cur.until(lambda c: colstop(c, False))
    if not tt: raise SqlError("column %s without a type" % cname)
    col["type"] = canon_type(tt, d)
    pend = ""
    while not cur.eof() and not cur.at(",") and not cur.at(")"):
        if cur.eat("NOT", "NULL"): col["nn"] = True
        elif cur.eat("NOT", "VISIBLE") or cur.eat("INVISIBLE"): col["vis"] = "NOT VISIBLE"
        elif cur.eat("VISIBLE"): col["vis"] = ""
        elif cur.eat("NULL"): col["nn"] = False
        elif cur.eat("DEFAULT"):
            first = [True]
            def stop(c):
                r = colstop(c, first[0]); first[0] = False; return r
            e = cur.until(stop)
            if not e: raise SqlError("empty DEFAULT")
            col["def"] = canon_expr(e, d)
        elif cur.eat("CHARACTER", "SET") or cur.eat("CHARSET"):
            cur.eat("="); col["charset"] = cur.next().v
        elif cur.eat("COLLATE"):
            cur.eat("="); col["collate"] = cur.next().v
        elif cur.eat("AUTO_INCREMENT"): col["ai"] = True
        elif cur.at("ON", "UPDATE") and d == "mysql":
            cur.need("ON", "UPDATE")
            e = cur.until(lambda c: colstop(c, False))
            if not e: raise SqlError("empty ON UPDATE")
            col["onup"] = canon_expr(e, d)
        elif cur.eat("COMMENT"):
            t = cur.next()
            if t.k != "s": raise SqlError("COMMENT needs a literal")
            col["comment"] = "'" + t.v + "'"
        elif cur.eat("OPTIONS"):
            col["opts"] = canon_expr(cur.parens(), d)
        elif cur.eat("GENERATED", "ALWAYS", "AS") or cur.eat("AS"):
            e = canon_expr(cur.parens(), d)
            kind = "STORED" if cur.eat("STORED") else ("VIRTUAL" if cur.eat("VIRTUAL") else "")
            col["gen"] = e + " " + kind
        elif cur.eat("CONSTRAINT"):
            pend = cur.name(); continue
        elif cur.eat("PRIMARY", "KEY"):
            cons.append(newcons("PK", [cname], pend, True))
            if cur.eat("DESC"): cons[-1]["dirs"] = ["DESC"]
            else: cur.eat("ASC")
        elif cur.eat("UNIQUE"):
            cur.eat("KEY"); cons.append(newcons("UQ", [cname], pend, True))
        elif cur.eat("REFERENCES"):
            c = newcons("FK", [cname], pend, True); fk_tail(cur, c); cons.append(c)
        elif cur.eat("CHECK"):
            c = newcons("CK", [cname], pend, True); set_check(c, cur.parens(), d); cons.append(c)
        else:
            raise SqlError("column %s: cannot read %r" % (cname, cur.t[cur.i:cur.i + 4]))
        pend = ""
    if pend: raise SqlError("dangling CONSTRAINT")
    return col, cons

def table_constraint(cur):
    """None if the cursor is not at a table constraint"""
    d = cur.d
    name = ""
    start = cur.i
    if cur.eat("CONSTRAINT"): name = cur.name()
    if cur.eat("PRIMARY", "KEY"):
        c = newcons("PK", name=name); c["cols"], c["dirs"] = keylist(cur)
    elif cur.eat("FOREIGN", "KEY"):
        c = newcons("FK", name=name); c["cols"], c["dirs"] = keylist(cur)
        cur.need("REFERENCES"); fk_tail(cur, c)
    elif cur.eat("CHECK"):
        c = newcons("CK", name=name); set_check(c, cur.parens(), d)
    elif cur.at("UNIQUE") and (cur.peek(1) is not None):
        cur.need("UNIQUE")
        c = newcons("UQ", name=name)
        if cur.eat("INDEX") or cur.eat("KEY"): pass
        if not cur.at("("): c["name"] = cur.name()
        c["cols"], c["dirs"] = keylist(cur)
        c["using"] = using_tail(cur)
    elif d in ("mysql", "cockroachdb") and (cur.at("INDEX") or cur.at("KEY")):
        cur.next()
        c = newcons("IX", name=name)
        if not cur.at("("): c["name"] = cur.name()
        c["cols"], c["dirs"] = keylist(cur)
        c["using"] = using_tail(cur)
    else:
        cur.i = start
        return None
    if cur.eat("NOT", "VALID"): pass
    return c

def using_tail(cur):
    if cur.at("USING"):
        toks = []
        while not cur.eof() and not cur.at(",") and not cur.at(")"):
            if cur.at("("): toks += cur.parens()
            else: toks.append(cur.next())
        return canon_expr(toks, cur.d)
    return ""

def table_options(cur, ev):
    d = cur.d
    if d == "mysql":
        while not cur.eof():
            cur.eat(",")
            if cur.eof(): break
            cur.eat("DEFAULT")
            if cur.eat("CHARACTER", "SET") or cur.eat("CHARSET"): k = "CHARSET"
            else: k = cur.next().v.upper()
            cur.eat("=")
            t = cur.next()
            v = ("'" + t.v + "'") if t.k == "s" else t.v
            ev["opts"][k] = v
    elif d == "spanner":
        while not cur.eof():
            cur.eat(",")
            if cur.eof(): break
            if cur.eat("PRIMARY", "KEY"):
                c = newcons("PK"); c["cols"], c["dirs"] = keylist(cur); ev["cons"].append(c)
            elif cur.at("INTERLEAVE"):
                cur.need("INTERLEAVE", "IN", "PARENT")
                il = cur.qname()
                act = ""
                if cur.eat("ON", "DELETE"):
                    act = "CASCADE" if cur.eat("CASCADE") else ("NO ACTION" if cur.eat("NO", "ACTION") else None)
                    if act is None: raise SqlError("interleave action")
                ev["il"] = dict(parent=il, act=act)
            elif cur.eat("ROW", "DELETION", "POLICY"):
                ev["ttl"] = canon_expr(cur.parens(), d)
            else:
                raise SqlError("table option at %r" % (cur.t[cur.i:cur.i + 4],))
    elif not cur.eof():
        raise SqlError("text after ) : %r" % (cur.t[cur.i:cur.i + 4],))

def read_statement(toks, d):
    """one statement -> list of events (dicts).  Raises SqlError."""
    cur = Cur(toks, d)
    if cur.eat("CREATE"):
        if cur.eat("TABLE"):
            ine = cur.eat("IF", "NOT", "EXISTS")
            ev = dict(e="CreateTable", t=cur.qname(), ine=ine, order=[], cols={}, cons=[], opts={}, ttl="", il=dict(parent="", act=""))
            cur.need("(")
            while not cur.eat(")"):
                c = table_constraint(cur)
                if c is not None: ev["cons"].append(c)
                else:
                    n = cur.name()
                    col, cs = column_def(cur, n)
                    if n in ev["cols"]: raise SqlError("column %s twice" % n)
                    ev["order"].append(n); ev["cols"][n] = col; ev["cons"] += cs
                if not cur.eat(","):
                    cur.need(")"); break
                elif cur.at(")"): raise SqlError("comma before )")
            table_options(cur, ev)
            return [ev]
        uq = cur.eat("UNIQUE")
        if cur.eat("NULL_FILTERED"): pass
        if cur.eat("INDEX"):
            ine = cur.eat("IF", "NOT", "EXISTS")
            n = cur.qname()
            using = ""
            if cur.at("USING") and d == "mysql": using = using_mid(cur)
            cur.need("ON")
            t = cur.qname()
            if cur.at("USING"): using = using_mid(cur)
            cols, dirs = keylist(cur)
            tail = using_tail(cur)
            if tail: using = (using + " " + tail).strip()
            if not cur.eof(): raise SqlError("text after index columns: %r" % (cur.t[cur.i:cur.i + 4],))
            if d in ("postgres", "cockroachdb") and using == "USING BTREE": using = ""
            return [dict(e="CreateIndex", n=n, t=t, uq=uq, cols=cols, dirs=dirs, using=using, ine=ine)]
        raise SqlError("CREATE what")
    if cur.eat("DROP"):
        if cur.eat("TABLE"):
            ie = cur.eat("IF", "EXISTS"); n = cur.qname()
            cur.eat("CASCADE")
            if not cur.eof(): raise SqlError("text after DROP TABLE")
            return [dict(e="DropTable", t=n, ie=ie)]
        if cur.eat("INDEX"):
            ie = cur.eat("IF", "EXISTS"); n = cur.qname(); t = ""
            if cur.eat("ON"): t = cur.qname()
            elif cur.eat("@"): t, n = n, cur.name()
            if not cur.eof(): raise SqlError("text after DROP INDEX")
            return [dict(e="DropIndex", n=n, t=t, ie=ie)]
        raise SqlError("DROP what")
    if cur.eat("ALTER", "TABLE"):
        cur.eat("IF", "EXISTS"); cur.eat("ONLY")
        t = cur.qname()
        evs = [alter_action(cur, t)]
        while cur.eat(","):
            evs.append(alter_action(cur, t))
        if not cur.eof(): raise SqlError("text after ALTER action: %r" % (cur.t[cur.i:cur.i + 4],))
        return evs
    raise SqlError("unknown statement %r" % (toks[:4],))

def using_mid(cur):
    cur.need("USING")
    return "USING " + cur.next().v.upper()

def alter_action(cur, t):
    d = cur.d
    if cur.eat("RENAME"):
        if cur.eat("TO") or cur.eat("AS"): return dict(e="RenameTable", t=t, to=cur.qname())
        raise SqlError("RENAME what")
    if cur.eat("ADD"):
        if d == "spanner" and cur.eat("ROW", "DELETION", "POLICY"):
            return dict(e="AddTTL", t=t, ttl=canon_expr(cur.parens(), d))
        c = None if cur.at("COLUMN") else table_constraint(cur)
        if c is not None:
            nv = cur.eat("NOT", "VALID")
            return dict(e="AddConstraint", t=t, con=c)
        cur.eat("COLUMN"); ine = cur.eat("IF", "NOT", "EXISTS")
        n = cur.name()
        col, cs = column_def(cur, n)
        return dict(e="AddColumn", t=t, c=n, col=col, cons=cs, ine=ine)
    if d == "spanner" and cur.eat("REPLACE", "ROW", "DELETION", "POLICY"):
        return dict(e="ReplaceTTL", t=t, ttl=canon_expr(cur.parens(), d))
    if cur.eat("DROP"):
        if cur.eat("CONSTRAINT"):
            ie = cur.eat("IF", "EXISTS"); n = cur.name()
            return dict(e="DropConstraint", t=t, n=n, ie=ie, what="CONSTRAINT")
        if cur.eat("PRIMARY", "KEY"): return dict(e="DropConstraint", t=t, n="PRIMARY", ie=False, what="PRIMARY")
        if d == "mysql" and cur.eat("FOREIGN", "KEY"): return dict(e="DropConstraint", t=t, n=cur.name(), ie=False, what="FK")
        if d == "mysql" and cur.eat("CHECK"): return dict(e="DropConstraint", t=t, n=cur.name(), ie=False, what="CK")
        if d == "mysql" and (cur.eat("INDEX") or cur.eat("KEY")): return dict(e="DropIndex", n=cur.name(), t=t, ie=False)
        if d == "spanner" and cur.eat("ROW", "DELETION", "POLICY"): return dict(e="DropTTL", t=t)
        cur.eat("COLUMN"); ie = cur.eat("IF", "EXISTS")
        return dict(e="DropColumn", t=t, c=cur.name(), ie=ie)
    if d == "mysql" and cur.eat("MODIFY"):
        cur.eat("COLUMN"); n = cur.name()
        col, cs = column_def(cur, n)
        if cs: raise SqlError("MODIFY with constraint")
        return dict(e="ModifyColumn", t=t, c=n, col=col)
    if cur.eat("ALTER"):
        cur.eat("COLUMN"); n = cur.name()
        if cur.eat("SET", "DEFAULT"):
            e = cur.until(lambda c: False)
            if not e: raise SqlError("empty default")
            return {"e": "SetDefault", "t": t, "c": n, "def": canon_expr(e, d)}
        if cur.eat("DROP", "DEFAULT"): return dict(e="DropDefault", t=t, c=n)
        if cur.eat("SET", "NOT", "NULL"): return dict(e="SetNotNull", t=t, c=n)
        if cur.eat("DROP", "NOT", "NULL"): return dict(e="DropNotNull", t=t, c=n)
        if d == "spanner":
            if cur.eat("SET", "OPTIONS"): return dict(e="SetOptions", t=t, c=n, opts=canon_expr(cur.parens(), d))
            if cur.eat("DROP", "OPTIONS"): return dict(e="DropOptions", t=t, c=n)
            col, cs = column_def(cur, n)
            if cs: raise SqlError("ALTER COLUMN with constraint")
            return dict(e="AlterColumnType", t=t, c=n, col=col)
        if cur.eat("SET", "DATA", "TYPE") or cur.eat("TYPE"):
            e = cur.until(lambda c: False)
            if not e: raise SqlError("empty type")
            return dict(e="SetType", t=t, c=n, type=canon_type(e, d))
        raise SqlError("ALTER COLUMN what: %r" % (cur.t[cur.i:cur.i + 4],))
    if d == "mysql":
        ev = dict(opts={})
        table_options(cur, ev)
        if len(ev["opts"]) == 1:
            (k, v), = ev["opts"].items()
            return dict(e="SetTableOption", t=t, k=k, v=v)
    raise SqlError("ALTER TABLE what: %r" % (cur.t[cur.i:cur.i + 4],))

def read_script(text, d):
    """whole script -> events; an unreadable statement becomes an Unreadable event"""
    evs = []
    try:
        stmts = split_statements(tokenize(text, d))
    except SqlError as x:
        return [dict(e="Unreadable", why=str(x))]
    for k, s in enumerate(stmts):
        try:
            for ev in read_statement(s, d):
                ev["stmt"] = k
                if ev["e"] in ("CreateTable", "AddColumn", "AddConstraint"): ev["tb"] = base(ev["t"])
                evs.append(ev)
        except SqlError as x:
            evs.append(dict(e="Unreadable", why=str(x)[:300], stmt=k))
    return evs
