#!/usr/bin/env python3
"""usage: mutants.py [--jobs N] [--out FILE] [--files a,b] [--every K] [--list]

Systematic small changes to the canister's source, one at a time in scratch clones, each run under every
monitor at once. What survives is read by hand: equivalent, or a gap in the workloads or monitors.
Works in /tmp/mutwork only."""
import argparse, json, os, re, shutil, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ap = argparse.ArgumentParser()
ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--out", default="/tmp/mutwork/out.jsonl")
ap.add_argument("--files", default=""); ap.add_argument("--every", type=int, default=1); ap.add_argument("--list", action="store_true"); ap.add_argument("--offset", type=int, default=0)
ap.add_argument("--n", default="60"); ap.add_argument("--match", default="")
A = ap.parse_args()
LEDGER = ["cycles-ledger/src/" + f for f in ["storage.rs", "main.rs", "lib.rs", "endpoints.rs", "compact_account.rs", "memo.rs", "config.rs"]]
FILES = A.files.split(",") if A.files else LEDGER
FIELDS = ["spender", "memo", "created_at_time", "expires_at", "expected_allowance", "suggested_fee", "fee", "subaccount", "creation_args"]

def body(text):
    i = text.find("#[cfg(test)]")
    return text if i < 0 else text[:i]

def mutants(path):
    text = open(f"{REPO}/{path}").read(); code = body(text); out = []
    def add(i, j, new, kind):
        if text[i:j] != new: out.append((path, i, j, new, kind))
    depth_doc = [(m.start(), m.end()) for m in re.finditer(r'//[^\n]*|"(?:\\.|[^"\\])*"', code)]
    skip = lambda i: any(a <= i < b for a, b in depth_doc)
    subs = [(r" < ", [" <= ", " >= "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " <= "]), (r" >= ", [" > ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]),
            (r" \+ ", [" - ", " + 1 + "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
            (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"saturating_sub", ["saturating_add"]), (r"saturating_add", ["saturating_sub"]), (r"checked_add", ["checked_sub"]), (r"checked_sub", ["checked_add"]),
            (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"Included\(", ["Excluded("]), (r"Excluded\(", ["Included("]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]),
            (r"if !", ["if "]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"take\(", ["take(1 + "]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
            (r"&from\b", ["&spender", "&to"]), (r"&to\b", ["&from"]), (r"&spender\b", ["&from"]), (r"\bnow\b(?=[,)])", ["now + 1", "0"]), (r"config::FEE\b(?! *[,}]? *=)", ["(config::FEE + 1)", "0", "(2 * config::FEE)"]),
            (r"u128::MAX", ["(u64::MAX as u128)"]), (r"u64::MAX", ["(u32::MAX as u64)"]), (r"unwrap_or\(0\)", ["unwrap_or(1)"]), (r"\bSome\((\w+)\)(?=[,;)])", ["None"]), (r"\bamount\b(?=[,)])", ["(amount + 1)"])]
    for pat, news in subs:
        for m in re.finditer(pat, code):
            if skip(m.start()): continue
            for n in news: add(m.start(), m.end(), n, pat)
    for m in re.finditer(r"(?<![\w.\"#])(\d[\d_]*)(?![\w.\"])", code):           # integers
        if skip(m.start()) or code[:m.start()].rstrip().endswith("#["): continue
        v = int(m.group(1).replace("_", "")); add(m.start(), m.end(), str(v + 1), "int+1")
        if v: add(m.start(), m.end(), str(v - 1), "int-1")
    for m in re.finditer(r"(?m)^( +)(?!let |return|use |//|pub |\}|break|continue)([^\n]*;)\n", code):   # drop a statement of one line
        if skip(m.start(2)): continue
        add(m.start(2), m.end(2), "", "drop")
    for m in re.finditer(r"(?m)^( +)(?!let )[\w:.]+\([^;{}]*?\)\??;\n", code):       # drop a call of several lines
        if "\n" in m.group(0)[:-1]: add(m.start(), m.end(), "\n", "drop call")
    for m in re.finditer(r"\bif ((?!let )[^{}\n]+) \{", code):
        if skip(m.start()): continue
        add(m.start(1), m.end(1), "true", "if true"); add(m.start(1), m.end(1), "false", "if false")
    for f in FIELDS:
        for m in re.finditer(rf"(?m)^( +){f},$", code): add(m.start(), m.end(), f"{m.group(1)}{f}: None,", "field None"); add(m.start(), m.end(), f"{m.group(1)}None,", "arg None")
    for m in re.finditer(r"\.await\?", code): pass
    seen, res = set(), []
    for x in sorted(out, key=lambda x: (x[1], x[2], x[3])):
        if x[1:4] in seen: continue
        seen.add(x[1:4]); res.append(x)
    return res

ALL = [m for f in FILES for m in mutants(f)]
ALL = [m for k, m in enumerate(ALL) if k % A.every == A.offset]
def show(m):
    t = open(f"{REPO}/{m[0]}").read(); line = t.count("\n", 0, m[1]) + 1
    a = t.rfind("\n", 0, m[1]) + 1; b = t.find("\n", m[2]); new = t[a:m[1]] + m[3] + t[m[2]:b]
    return line, t[a:b].strip()[:160], new.strip()[:160]
ALL = [m for m in ALL if not re.search(r'write!|display_opt|log!|context\(|bail!|anyhow!|panic!|expect\(|trap\(', show(m)[1])]   # texts only
if A.match: ALL = [m for m in ALL if re.search(A.match, show(m)[1])]
if A.list:
    for m in ALL: print(m[0].split("/")[-1], *show(m), sep=" | ")
    print(len(ALL)); sys.exit()
W = "/tmp/mutwork"; os.makedirs(W, exist_ok=True)
done = set()
if os.path.exists(A.out): done = {(d["file"], d["i"], d["new"]) for d in map(json.loads, open(A.out))}
Q = queue.Queue()
for m in ALL:
    if (m[0], m[1], m[3]) not in done: Q.put(m)
print(Q.qsize(), "mutants to run", flush=True)
lock = threading.Lock()
def worker(k):
    r, b = f"{W}/r{k}", f"{W}/b{k}"
    shutil.rmtree(r, ignore_errors=True); subprocess.run(["git", "clone", "-q", REPO, r], check=True)
    env = dict(os.environ, VERIF_FAST="1", VP_REPO=r, VERIF_BUILD=b, VERIF_EVIDENCE=f"{W}/e{k}")
    cmd = ["nice", "-n", "10", "node", HERE + "/run.mjs", "all", "--n", A.n, "--secs", "120", "--flavors", "vprel", "--pkgs", "cycles-ledger", "--first", "--workers", "3"]
    while True:
        try: m = Q.get_nowait()
        except queue.Empty: return
        p = f"{r}/{m[0]}"; t = open(f"{REPO}/{m[0]}").read()
        open(p, "w").write(t[:m[1]] + m[3] + t[m[2]:]); t0 = time.time()
        try: x = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=400); o = x.stdout + x.stderr; rc = x.returncode
        except subprocess.TimeoutExpired: o, rc = "", "timeout"
        open(p, "w").write(t)
        v = sorted(set(re.findall(r"VIOLATION property=(\w+)", o)))
        kind = "nobuild" if "build failed" in o else "killed" if v else "error" if "harness error" in o or "harness failure" in o or rc == 2 else "hang" if rc == "timeout" else "aborts" if "episodes aborted" in o else "SURVIVED"
        line, old, new = show(m)
        with lock:
            open(A.out, "a").write(json.dumps(dict(file=m[0], i=m[1], new=m[3], op=m[4], line=line, was=old, now=new, kind=kind, by=v, s=round(time.time() - t0), msg=o[-600:] if kind in ("error", "hang", "aborts") else "")) + "\n")
            if kind not in ("killed", "nobuild"): print(kind, m[0].split("/")[-1], line, "|", old, "=>", new, flush=True)
T = [threading.Thread(target=worker, args=(k,)) for k in range(A.jobs)]
for t in T: t.start()
for t in T: t.join()
