#!/usr/bin/env python3
"""mutate.py N SEED [-j J] [-f FILE-REGEX] [-o OUT]   (development tool, no check uses it)
Plants N random one-token changes in functions the checks encode, each in a private copy of /repo seen through a
mount namespace, and runs the quick checks of the properties anchored in the changed file until one reports it.
Writes one JSON line per change: caught by which check, or survived (then it is either equivalent or a gap)."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading, queue
ap = argparse.ArgumentParser(); ap.add_argument("n", type=int); ap.add_argument("seed", type=int); ap.add_argument("-j", type=int, default=6); ap.add_argument("-f", default="."); ap.add_argument("-o", default="/tmp/mut/out.jsonl"); ap.add_argument("--again", help="JSONL of changes to plant again")
a = ap.parse_args(); rnd = random.Random(a.seed)
props = {}
fns = set()
for p in map(json.loads, open("/verif/properties.jsonl")):
    e = "/verif/evidence/%s.json" % p["id"]
    if not os.path.exists(e): continue
    names = set(re.findall(r"([A-Za-z_]\w*)::~?([A-Za-z_]\w*)\(|\b([a-z_A-Z]\w*)\(", json.dumps(json.load(open(e)))))
    fn = {y or z for x, y, z in names}
    for f in {x["path"] if isinstance(x, dict) else x for x in re.findall(r"(?:src|include)/[\w/]+\.[ch]pp", json.dumps(p))}: props.setdefault(f, []).append((p["id"], fn))
SKIP = re.compile(r"^\s*(//|\*|/\*|#|assert|MFEM_|mfem_error|mfem_warning|printf|timer|std::cout|cout|using|return;|[{}]|template|namespace|static|const int [A-Z]|else\s*$)|TODO|printf|Print|timer|assert\(")
def muts(l):
    r = []
    def sub(rx, new):
        for m in re.finditer(rx, l):
            x = l[:m.start()] + (new(m) if callable(new) else new) + l[m.end():]
            if x != l: r.append(x)
    code = l.split("//")[0]
    if len(code.strip()) < 4: return r
    sub(r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "); sub(r"(?<=[\w\)\]]) - (?=[\w\(])", " + "); sub(r" \+= ", " = "); sub(r" \+= ", " -= "); sub(r" -= ", " += "); sub(r" \*= ", " = ")
    sub(r" < ", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > "); sub(r" == ", " != "); sub(r" != ", " == "); sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true"); sub(r"(?<=[\[\(, ])0(?=[\]\),;])", "1"); sub(r"(?<=[\[\(, ])1(?=[\]\),;])", "0"); sub(r"\b0\.0\b", "1.0"); sub(r"\b0\.5\b", "0.25"); sub(r"\b1\.0\b", "0.5")
    sub(r"\b([A-Za-z_]\w*?)1(?=\W)", lambda m: m.group(1) + "2"); sub(r"\b([A-Za-z_]\w*?)2(?=\W)", lambda m: m.group(1) + "1"); sub(r" \* (?=\w)", " + ")
    sub(r"\bi\b(?=[\],)])", "j"); sub(r"\bj\b(?=[\],)])", "i"); sub(r"\bk\b(?=[\],)])", "i"); sub(r"\.Mult\(", ".MultTranspose("); sub(r"\.MultTranspose\(", ".Mult("); sub(r"(?<=[\(\[ ])-(?=\w)", "")
    if re.match(r"^\s*[\w\.\->\(\)\*\[\]:, &]+;\s*$", code) and not re.match(r"^\s*(const |int |double |auto |Vector |Array|DenseMatrix |Mesh |return|break|std::|bool |delete |\w+ \*?\w+;|\w+ \w+\()", code): r.append(re.match(r"^\s*", l).group(0) + ";")
    return r
cands = []
for f, ps in sorted(props.items()):
    if not re.search(a.f, f) or not os.path.exists("/repo/" + f): continue
    lines = open("/repo/" + f).read().split("\n"); cur = None; com = False
    for i, l in enumerate(lines):
        if "/*" in l and "*/" not in l: com = True
        if "*/" in l: com = False; continue
        if com: continue
        m = re.match(r"^(?:   )?[A-Za-z].*?(?:(\w+)::)?~?(\w+)\(.*$", l)
        if m and not re.match(r"^(?:   )?(if|for|while|return|else|assert|mfem|\w+\.|\w+->)", l) and (not l.startswith(" ") or f.endswith("hpp")): cur = m.group(2)
        if SKIP.search(l) or not cur: continue
        who = [p for p, fn in ps if cur in fn]
        if not who: continue
        for x in muts(l): cands.append((f, i, l, x, who))
rnd.shuffle(cands); done = set()
if os.path.exists(a.o):
    for x in map(json.loads, open(a.o)): done.add((x["file"], x["old"], x["new"]))
pick = [c for c in cands if (c[0], c[2], c[3]) not in done]
# spread over files
by = {}
for c in pick: by.setdefault(c[0], []).append(c)
sel = []
while len(sel) < a.n and any(by.values()):
    for f in list(by):
        for _ in range(max(1, round(len(by[f]) / 400))):
            if by[f] and len(sel) < a.n: sel.append(by[f].pop())
if a.again: sel = [(x["file"], x["line"] - 1, x["old"], x["new"], x["who"]) for x in map(json.loads, open(a.again))]
print(len(cands), "candidates,", len(sel), "selected in", len(by), "files", flush=True)
q = queue.Queue(); [q.put(c) for c in sel]; lock = threading.Lock()
def worker(w):
    d = "/tmp/mut/w%d" % w
    subprocess.call(["rm", "-rf", d]); os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"]); subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
    while True:
        try: f, i, old, new, who = q.get_nowait()
        except queue.Empty: break
        p = d + "/repo/" + f; src = open(p).read(); L = src.split("\n"); assert L[i] == old; L[i] = new; open(p, "w").write("\n".join(L))
        res = {"file": f, "line": i + 1, "old": old, "new": new, "who": who, "caught": None, "rc": {}}
        for pr in who:
            r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; ulimit -v 12000000; timeout 600 python3 bin/check.py %s --tier quick" % (d, d, pr)], capture_output=True, text=True)
            res["rc"][pr] = r.returncode
            if "does not build" in r.stdout + r.stderr: res["caught"] = "nobuild"; break
            if r.returncode == 1 and "VIOLATION" in r.stdout: res["caught"] = pr; break
            if r.returncode != 0: res.setdefault("other", {})[pr] = (r.stdout + r.stderr)[-400:]
            elif "INCONCLUSIVE" in r.stdout: res.setdefault("inconclusive", {})[pr] = re.findall(r"INCONCLUSIVE (.*)", r.stdout)[0][:200]
        open(p, "w").write(src)
        with lock:
            open(a.o, "a").write(json.dumps(res) + "\n")
    subprocess.call(["rm", "-rf", d])
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.j)]; [t.start() for t in ts]; [t.join() for t in ts]
