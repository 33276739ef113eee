"""stage2cli.py WORK IN.jsonl OUT.jsonl [k/n]: which checks see each command-line-side mutant that the tests let live
(development aid: runs the quick checks in WORK/verif against WORK/repo, private copies)"""
import sys, os, json, subprocess, time, hashlib, random
W, IN, OUT = sys.argv[1:4]
K, N = map(int, (sys.argv[4] if len(sys.argv) > 4 else "0/1").split("/"))
LIMIT = int(os.environ.get("LIMIT", "1000"))
def sh(c): return subprocess.run(c, shell=True, check=True, capture_output=True, text=True).stdout
if not os.path.isdir(W + "/repo"):
    os.makedirs(W, exist_ok=True)
    sh(f"cp -a /repo {W}/repo; mkdir {W}/verif; cd /verif; cp -a check.py tools spec driver known_findings.json properties.jsonl MANIFEST.json {W}/verif/; mkdir -p {W}/verif/evidence; sed -i 's#\"/repo\"#\"{W}/repo\"#' {W}/verif/tools/*.py")
def order(f):
    if "apply" in f: return ["C07", "C08", "C09", "C12"]
    if "pkg/ddlctl/" in f or "config" in f: return ["C12", "C10", "C11", "C07"]
    if "pkg/show" in f: return ["C11"]
    return ["C10"]
done = set()
for o in [OUT]:
    if os.path.exists(o):
        for l in open(o): x = json.loads(l); done.add((x["file"], x["n"]))
while True:
    ms = [json.loads(l) for l in open(IN)]
    ms = [m for m in ms if m["st"] == "alive" and (m["file"], m["n"]) not in done]
    ms = [m for m in ms if int(hashlib.md5(f"{m['file']}{m['n']}".encode()).hexdigest(), 16) % N == K]
    if not ms or len(done) >= LIMIT: break
    ms.sort(key=lambda m: hashlib.md5(f"x{m['file']}{m['n']}".encode()).hexdigest())
    m = ms[0]; done.add((m["file"], m["n"]))
    p = f"{W}/repo/{m['file']}"; src = open("/repo/" + m["file"], "rb").read()
    open(p, "wb").write(src[:m["start"]] + m["text"].encode() + src[m["end"]:])
    seen = {}
    t = time.time()
    for c in order(m["file"]):
        r = subprocess.run(["python3", "check.py", c, "--tier", "quick"], cwd=W + "/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        if r.returncode == 1:
            seen[c] = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:2]; break
        if r.returncode != 0: seen[c] = "MACHINERY " + (r.stderr + r.stdout)[-300:]
    open(p, "wb").write(src)
    m["seen"], m["s"] = seen, round(time.time() - t)
    m["line_text"] = src.decode().splitlines()[m["line"] - 1].strip()
    open(OUT, "a").write(json.dumps(m) + "\n")
    print(m["file"], m["line"], m["what"], list(seen), m["s"], flush=True)
