"""The recording database of the checks: the real ddlctl binary talks to it through the driver of driver/fakedb.go.

A Scenario says how the database answers (what it holds, which statements it refuses) and collects the events."""
import glob, json, os, re, socketserver, subprocess, threading, time, concurrent.futures as cf
import common, sql

IMPORTS = re.compile(r'^\s*(?:import\s+)?_\s+"(?:github.com/go-sql-driver/mysql|github.com/googleapis/go-sql-spanner|github.com/lib/pq)".*$', re.M)

def build_cli(scr):
    """the real command with the recording drivers in place of the real ones"""
    ov = {common.REPO + "/pkg/ddlctl/zz_verif_fakedb.go": common.VERIF + "/driver/fakedb.go"}
    for base in ("cmd", "pkg"):
        for f in glob.glob(os.path.join(common.REPO, base, "**", "*.go"), recursive=True):
            if f.endswith("_test.go"): continue
            s = open(f).read()
            t = IMPORTS.sub(lambda m: "import ()" if m.group(0).lstrip().startswith("import") else "", s)
            if s != t:
                g = scr.path("ov", str(len(ov)) + ".go"); open(g, "w").write(t); ov[f] = g
    return common.go_build(scr, scr.path("ddlctl"), "./cmd/ddlctl", ov)

class Scenario:
    """base class: an empty database that accepts everything"""
    def __init__(self, id, d):
        self.id, self.d = id, d
        self.events, self.lock = [], threading.Lock()
        self.conns = 0
        self.out = None                     # file the process writes its standard output to
    def log(self, **e):
        with self.lock:
            e["at"] = len(self.events)
            self.events.append(e)
    def stdout(self):
        try: return open(self.out, "rb").read().decode("utf8", "replace") if self.out else ""
        except OSError: return ""
    def on_open(self, n): return ""         # error text or ""
    def on_ping(self): return ""
    def on_exec(self, q): return ""
    def on_query(self, q, args): return [], []
    def handle(self, conn, m):
        op = m["op"]
        if op == "open":
            with self.lock: self.conns += 1; conn["n"] = self.conns
            err = self.on_open(conn["n"])
            self.log(e="open", driver=m["driver"], dsn=m["dsn"], conn=conn["n"], err=err)
            return dict(err=err)
        if op == "ping": return dict(err=self.on_ping())
        if op == "close": self.log(e="close", conn=conn.get("n", 0)); return dict(err="")
        if op in ("begin", "commit", "rollback"): self.log(e=op, conn=conn["n"]); return dict(err="")
        if op == "query" and is_read(m["sql"]):
            try: cols, rows = self.on_query(m["sql"], m["args"])
            except DBError as e:
                self.log(e="query", sql=m["sql"], err=str(e)); return dict(err=str(e))
            self.log(e="query", sql=m["sql"], err="")
            return dict(err="", cols=cols, rows=rows)
        shown = self.stdout()
        err = self.on_exec(m["sql"])
        self.log(e="send", sql=m["sql"], conn=conn["n"], err=err, shown=shown)
        return dict(err=err, cols=[], rows=[])

class DBError(Exception): pass

def is_read(q):
    w = re.sub(r"--[^\n]*", "", q).split()
    return bool(w) and w[0].upper() in ("SELECT", "SHOW", "WITH", "(SELECT")

class Server:
    def __init__(self, scr):
        self.path = "/tmp/verif-%d-%s.sock" % (os.getpid(), os.path.basename(scr.dir))
        if len(self.path) > 100: self.path = "/tmp/verif-%d.sock" % os.getpid()
        self.scn = {}
        outer = self
        class H(socketserver.StreamRequestHandler):
            def handle(h):
                conn, s = {}, None
                for line in h.rfile:
                    m = json.loads(line)
                    if m["op"] == "open": s = outer.scn[m["scn"]]
                    try: r = s.handle(conn, m)
                    except Exception as e:           # a mistake of the checks, not of the code under test
                        s.broken = repr(e); r = dict(err="verif: " + repr(e))
                    try: h.wfile.write((json.dumps(r) + "\n").encode())
                    except OSError: return
        class S(socketserver.ThreadingMixIn, socketserver.UnixStreamServer):
            daemon_threads = True
            request_queue_size = 1024
        self.srv = S(self.path, H)
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
    def close(self):
        self.srv.shutdown(); self.srv.server_close()
        try: os.unlink(self.path)
        except OSError: pass

def clean_env():
    return {k: v for k, v in common.goenv().items() if not k.startswith("DDLCTL_")}

def run_cli(binary, srv, scn, args, cwd, out, stdin=None, env=None, timeout=60, between=None):
    """runs one command; stdin None = closed, else bytes (or a list of them, typed one after the other) written once the prompt is there, after between().
    -> dict(rc, out, err, hang); records the events answer and end in the scenario"""
    scn.out = out; scn.broken = None
    srv.scn[str(scn.id)] = scn
    e = dict(env or {}); e.update(VERIF_DB=srv.path, VERIF_SCN=str(scn.id))
    with open(out, "wb") as fo, open(out + ".err", "wb") as fe:
        p = subprocess.Popen([binary] + args, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=fo, stderr=fe)
        t0 = time.time(); hang = False
        if stdin is not None:
            pause = .002
            while p.poll() is None and time.time() - t0 < 5 and "Enter a value:" not in scn.stdout():
                time.sleep(pause); pause = min(pause * 1.5, .05)
            if p.poll() is None: time.sleep(.02)
            if between: between()
            parts = stdin if isinstance(stdin, list) else [stdin]
            scn.log(e="answer", text=b"".join(parts).decode("utf8", "replace"), shown=scn.stdout())
            for k, x in enumerate(parts):
                if k: time.sleep(.05)
                try: p.stdin.write(x); p.stdin.flush()
                except OSError: pass
        try: p.stdin.close()
        except OSError: pass
        try: p.wait(timeout)
        except subprocess.TimeoutExpired:
            hang = True; p.kill(); p.wait()
    if scn.broken: raise common.Machinery("recording database: " + scn.broken)
    scn.log(e="end", rc=p.returncode)
    return dict(rc=p.returncode, out=scn.stdout(), err=open(out + ".err", "rb").read().decode("utf8", "replace"), hang=hang)

def run_many(jobs, f, procs):
    """f over jobs in threads (they mostly wait)"""
    with cf.ThreadPoolExecutor(procs) as ex: return list(ex.map(f, jobs))

def shown_statements(text, d):
    """the statements displayed between the cutting marks, as canonical texts"""
    i, j = text.find("-- 8< --"), text.rfind("-- >8 --")
    body = text[i + 8:j] if 0 <= i < j else text[:text.find("Do you want to apply")] if "Do you want to apply" in text else ""
    return statements(body, d)

def statements(body, d):
    out, cur = [], []
    for t in sql.tokenize(body, d):
        if t.raw == ";":
            if cur: out.append(cur)
            cur = []
        else: cur.append(t.raw)
    if cur: out.append(cur)
    return ["\x1f".join(s) for s in out]
