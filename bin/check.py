#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--case NAME]

Decides one property by symbolic execution of the code in /repo (see DESIGN.md):
 1. builds the symbolic and the replay executables from /repo's working tree;
 2. explores every path of every case of the property's harness; each path's
    obligations are discharged by z3 for all values of the symbolic inputs;
 3. validates the encoding: the same cases are evaluated at a pinned input by
    the symbolic engine and by the plain g++ build, results must agree;
 4. replays every counterexample on the plain build and only reports those that
    fail there too.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not run."""
import argparse
import collections
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

VERIF = B.VERIF


def load_checks():
    with open(VERIF + "/harness/checks.json") as f:
        return json.load(f)


def known(prop):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop and x["status"] == "known"]


def run_replay(rexe, case, vals, scratch, fill=None):
    d = tempfile.mkdtemp(dir=scratch)
    with open(d + "/values.txt", "w") as f:
        for k, v in vals.items():
            f.write("%s\t%s\n" % (k, repr(float(v)) if not isinstance(v, int) else v))
    cmd = [rexe, "--case", case, "--values", d + "/values.txt", "--out", d + "/out.txt"]
    if fill is not None:
        cmd += ["--fill", repr(fill)]
    try:
        subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
    except subprocess.TimeoutExpired:
        pass
    res = {"eq": [], "chk": [], "crash": None, "done": False, "assume": False}
    try:
        with open(d + "/out.txt", errors="replace") as f:
            for line in f:
                t = line.rstrip("\n").split("\t")
                if t[0] == "EQ":
                    res["eq"].append((t[1], float(t[2]), float(t[3]), float(t[4])))
                elif t[0] == "CHK":
                    res["chk"].append((t[1], t[2] == "1"))
                elif t[0] == "CRASH":
                    res["crash"] = t[1]
                elif t[0] == "DONE":
                    res["done"] = True
                elif t[0] == "ASSUME":
                    res["assume"] = True
    except FileNotFoundError:
        res["crash"] = "no output"
    shutil.rmtree(d, ignore_errors=True)
    if not (res["done"] or res["assume"] or res["crash"]):
        res["crash"] = "died or timed out"
    return res


def failures(res, tols=None):
    """labels of obligations that fail in a replay result"""
    out = []
    if res["assume"]:
        return out
    for lab, a, b, tol in res["eq"]:
        if not (math.isfinite(a) and math.isfinite(b)):
            out.append((lab, "%r vs %r" % (a, b)))
            continue
        t = max(abs(tol), 1e-9) * 10 * (1 + abs(a) + abs(b))
        if tols and lab in tols:
            t = max(min(t, 0.5 * tols[lab]), 1e-10 * (1 + abs(a) + abs(b)))
            if tol < 0:
                t = max(t, 10 * abs(tol) * (1 + abs(a) + abs(b)))
        if abs(a - b) > t:
            out.append((lab, "%r vs %r" % (a, b)))
    for lab, ok in res["chk"]:
        if not ok:
            out.append((lab, "condition is false"))
    if res["crash"]:
        out.append(("crash", res["crash"]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = load_checks()[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        sexe, rexe, srcs = B.build(cfg["harness"], cfg.get("ints", False), cfg.get("wrap", ()), cfg.get("rom", False), cfg.get("integ", False))
    except B.BuildError as e:
        print(e)
        print("ERROR property=%s: the tree does not build" % a.prop)
        return 2
    tb = time.time() - t0
    os.makedirs(B.BUILD + "/run", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=a.prop + "-", dir=B.BUILD + "/run")
    try:
        return decide(a, cfg, tier, seed, sexe, rexe, srcs, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def sym(sexe, scratch, tag, args, timeout):
    out = "%s/%s.jsonl" % (scratch, tag)
    d = tempfile.mkdtemp(dir=scratch)
    log = open(scratch + "/" + tag + ".log", "w")
    env = dict(os.environ)
    env["SX_PATH_TIMEOUT"] = str(int(timeout * 0.8))
    try:
        r = subprocess.Popen([sexe, "--out", out] + args, cwd=d, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        rc = r.wait(timeout=timeout + 120)
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, 9)
        r.wait()
        rc = -1
    ev = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    pass
    if rc:
        ev.append({"case": "*", "ev": "incomplete", "why": "engine exit %s" % rc})
    shutil.rmtree(d, ignore_errors=True)
    return ev


def decide(a, cfg, tier, seed, sexe, rexe, srcs, scratch, t0, tb):
    prop = a.prop
    budget = 420 if tier == "quick" else 3000
    args = ["--seed", str(seed), "--jobs", str(os.cpu_count() or 8), "--deadline", str(budget)]
    args += ["--maxpaths", str(cfg.get("maxpaths", 3000) * (1 if tier == "quick" else 10))]
    if tier == "thorough":
        args.append("--thorough")
    if a.case:
        args += ["--case", a.case]
    ev = sym(sexe, scratch, "explore", args, budget)
    pin = sym(sexe, scratch, "pin", args + ["--pin"], 100)

    kf = known(prop)
    viols, inconclusive, notes = [], [], []
    ends = [e for e in ev if e["ev"] == "end"]
    cases = collections.OrderedDict()
    for e in ends:
        c = cases.setdefault(e["case"], {"paths": 0, "done": 0, "infeasible": 0, "assume": 0, "other": collections.Counter(), "obl": 0, "symops": 0})
        st = e["d"]["status"]
        if st == "infeasible":
            c["infeasible"] += 1
        elif st == "assume":
            c["assume"] += 1
        else:
            c["paths"] += 1
            if st == "done":
                c["done"] += 1
                c["obl"] += e["d"]["obligations"]
                c["symops"] += e["d"]["symops"]
            else:
                c["other"][st] += 1
    unconfirmed = 0

    def confirm(case, model, tols, want):
        for fill in (None, -17.5, float("nan")):
            res = run_replay(rexe, case, model, scratch, fill)
            fl = failures(res, tols)
            if fl:
                return fl
        return []
    seen = set()
    for e in ev:
        if e["ev"] == "viol":
            key = (e["case"], e["d"]["label"])
            if key in seen:
                continue
            seen.add(key)
            fl = confirm(e["case"], e["d"]["model"], {e["d"]["label"]: e["d"]["tol"]}, e["d"]["label"])
            if fl:
                viols.append({"case": e["case"], "label": e["d"]["label"], "model": e["d"]["model"], "real": fl[:5]})
            else:
                unconfirmed += 1
                inconclusive.append("%s: counterexample for '%s' did not replay on the real code" % (e["case"], e["d"]["label"]))
        elif e["ev"] == "end" and e["d"]["status"] in ("crash", "died"):
            key = (e["case"], "crash", e["d"]["msg"][:60])
            if key in seen:
                continue
            seen.add(key)
            fl = confirm(e["case"], e["d"]["model"], None, None)
            if fl:
                viols.append({"case": e["case"], "label": "crash", "model": e["d"]["model"], "real": fl[:5], "msg": e["d"]["msg"]})
            else:
                inconclusive.append("%s: abnormal end (%s) did not replay on the real code" % (e["case"], e["d"]["msg"][:200]))
        elif e["ev"] == "end" and e["d"]["status"] in ("fpe", "unsupported", "limit", "timeout", "unknown", "corrupt", "nondet", "error"):
            key = (e["case"], e["d"]["status"], e["d"]["msg"][:80])
            if key not in seen:
                seen.add(key)
                inconclusive.append("%s: %s (%s)" % (e["case"], e["d"]["status"], e["d"]["msg"][:900 if a.v else 300]))
        elif e["ev"] == "unknown":
            inconclusive.append("%s: solver gave no verdict on '%s'" % (e["case"], e["d"]["label"]))
        elif e["ev"] == "incomplete":
            inconclusive.append("%s: exploration incomplete (%s)" % (e["case"], e["why"]))
    for n, c in cases.items():
        if c["done"] and c["obl"] == 0:
            inconclusive.append("%s: no obligation was reached" % n)

    # encoding validation at the pinned input
    pv = collections.defaultdict(lambda: {"vals": {}, "eq": [], "chk": [], "status": None})
    for e in pin:
        d = pv[e["case"]]
        if e["ev"] == "pinvals" or e["ev"] == "pinint":
            if e["ev"] == "pinint":
                d["vals"][e["d"]["name"]] = int(e["d"]["v"])
            else:
                d["vals"].update(e["d"])
        elif e["ev"] == "pin":
            d["eq"].append((e["d"]["label"], e["d"]["a"], e["d"]["b"], e["d"]["s"]))
        elif e["ev"] == "pinc":
            d["chk"].append((e["d"]["label"], e["d"]["c"] == 1))
        elif e["ev"] == "end":
            d["status"] = e["d"]["status"]
    validated = agree = 0
    for case, d in pv.items():
        if case == "*":
            continue
        vals = dict(d["vals"])
        uninit = vals.pop("UNINIT", None)
        res = run_replay(rexe, case, vals, scratch, uninit)
        fl = failures(res)
        if fl and not any(v["case"] == case for v in viols):
            viols.append({"case": case, "label": fl[0][0], "model": vals, "real": fl[:5], "msg": "fails at the pinned input"})
        if d["status"] != "done" or not res["done"]:
            if not (d["status"] == "assume" and res["assume"]):
                notes.append("%s: pinned run ended %s / %s" % (case, d["status"], "done" if res["done"] else res["crash"]))
            continue
        validated += 1
        ok = len(d["eq"]) == len(res["eq"]) and len(d["chk"]) == len(res["chk"])
        bad = None
        if ok:
            for (l1, x, y, s), (l2, p, q, tl) in zip(d["eq"], res["eq"]):
                sc = 1e-6 * (1 + abs(x) + abs(p) + abs(y) + abs(q))
                if abs(x - p) > sc or abs(y - q) > (sc if tl >= 0 else 1e-4 * (1 + abs(y) + abs(q))) or l1.replace("\t", " ") != l2:
                    ok, bad = False, (l1, x, p, y, q)
                    break
            for (l1, x), (l2, p) in zip(d["chk"], res["chk"]):
                if x != p:
                    ok, bad = False, (l1, x, p)
                    break
        if ok:
            agree += 1
        else:
            inconclusive.append("%s: encoding and real code differ at the pinned input (%s)" % (case, bad or "obligation lists differ: %d/%d vs %d/%d" % (len(d["eq"]), len(d["chk"]), len(res["eq"]), len(res["chk"]))))

    # known findings
    fresh, reported = [], set()
    for v in viols:
        m = [k for k in kf if k["case"] == v["case"] and k["label"] in (v["label"], "*")]
        if m:
            reported.add(m[0]["what"])
        else:
            fresh.append(v)
    for w in sorted(reported):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))

    decided = sum(1 for c in cases.values() if c["done"] and not c["other"])
    q = collections.Counter()
    fns = set()
    ts = 0.0
    trans = 0
    for e in ends:
        d = e["d"]
        for k in ("obligations", "queries", "sat", "unsat", "unknown", "symops", "exprs"):
            q[k] += d[k]
        ts += d["solver_s"]
        trans += len(d.get("decisions", "").split())
        fns.update(d["fns"])
    done_obl = sum(c["obl"] for c in cases.values())
    samples = [{"case": n, "paths": c["paths"], "completed": c["done"], "outside_assumptions": c["assume"], "infeasible": c["infeasible"], "obligations": c["obl"], "symbolic_operations": c["symops"]} for n, c in cases.items()]
    cov = {
        "states": sum(c["paths"] for c in cases.values()),
        "transitions": trans,
        "traces_validated_against_impl": agree,
        "samples": samples,
        "obligations": done_obl,
        "discharged": done_obl - sum(e["d"]["viol"] + e["d"]["unknown_obs"] for e in ends),
        "cases": len(cases),
        "solver_queries": q["queries"], "solver_sat": q["sat"], "solver_unsat": q["unsat"], "solver_unknown": q["unknown"],
        "solver_seconds": round(ts, 3),
        "symbolic_operations": q["symops"],
        "expressions": q["exprs"],
        "functions_encoded": sorted(demangle(fns)),
        "bounds": cfg["bounds"],
        "outside_bounds": cfg.get("outside", []),
        "inconclusive": inconclusive[:40],
        "notes": notes[:20],
        "encoding_validation": {"cases_compared": validated, "agreeing": agree},
        "counterexamples_not_replayed": unconfirmed,
        "build_s": round(tb, 1),
        "meaning": "states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = solver-decided branch decisions, traces_validated = pinned inputs on which the symbolic result equals the plain g++ build's result",
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    evd = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
           "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not a.case:
        with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
            json.dump(evd, f, indent=1)
    for s in inconclusive:
        print("INCONCLUSIVE " + s)
    for s in notes:
        print("NOTE " + s)
    print("%s: %d cases, %d paths, %d obligations, %d queries (%.1f s in the solver), %d functions encoded, %.1f s" % (prop, len(cases), cov["states"], done_obl, q["queries"], ts, len(fns), time.time() - t0))
    if a.v:
        for s in samples:
            print("  ", s)
        for f in cov["functions_encoded"]:
            print("  fn", f)
    if fresh:
        rd = VERIF + "/evidence/replay"
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            base = "%s/%s-%d" % (rd, prop, i)
            with open(base + ".values", "w") as f:
                for k, x in v["model"].items():
                    f.write("%s\t%r\n" % (k, x))
            with open(base + ".sh", "w") as f:
                f.write("#!/bin/sh\n# %s case %s: %s\n# on the real code: %s\ncd $(mktemp -d) && exec %s --case %s --values %s.values\n" % (prop, v["case"], v["label"], v["real"], rexe, v["case"], base))
            os.chmod(base + ".sh", 0o755)
            print("  case %s: %s; real code: %s %s" % (v["case"], v["label"], v["real"][:2], v.get("msg", "")[:200]))
            print("VIOLATION property=%s replay=%s" % (prop, base + ".sh"))
        return 1
    if decided == 0:
        print("ERROR property=%s: nothing was decided" % prop)
        return 2
    return 0


COMMON = [
    "floating-point arithmetic is encoded as exact real arithmetic; obligations are equalities up to 1e-9 of the operands' magnitude",
    "MFEM's dense/sparse/vector kernels are replaced by the re-statements in engine/mfem_models.cpp; everything else of MFEM, HDF5 and yaml-cpp runs natively on concrete data or merely copies symbolic values",
    "the code is compiled by clang 18 at -O1 with asserts on; z3 4.8.12 is trusted",
]


def demangle(fns):
    if not fns:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(fns), text=True, stdout=subprocess.PIPE)
    return sorted(set(x.strip() for x in r.stdout.splitlines() if x.strip()))


if __name__ == "__main__":
    sys.exit(main())
