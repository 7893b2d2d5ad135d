#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the bounds in harness/checks.json from the descriptions below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled C++ (LLVM pass), exact polynomial normalisation, z3 (LRA/NRA) per obligation, counterexamples replayed on the plain g++ build"
NOTE = "Every path of every harness case is explored and each obligation is discharged by z3 for all real values of the symbolic inputs within the bounds listed in the evidence file. Trusts clang -O1, z3, exact-real semantics of floating point, the re-statements of MFEM kernels in engine/mfem_models.cpp (validated against the plain build at a pinned input on every run) and libmfem/HDF5/yaml-cpp running natively."
P, CH, NA = [], {}, []


def prop(id, title, statement, over, qtext, why, files, mech, bounds, outside, harness=None, assumptions=(), **kw):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    CH[id] = dict(harness=[harness or id + ".cpp"], bounds=bounds, outside=outside, assumptions=list(assumptions), **kw)


def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    NA.append({"property": id, "reason": reason})


exec(open(V + "/bin/meta_props.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
with open(V + "/harness/checks.json", "w") as f:
    json.dump(dict(sorted(CH.items())), f, indent=1)
    f.write("\n")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i, "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking", "level_note": NOTE} for i in sorted(CH)],
     "not_applicable": sorted(NA, key=lambda x: x["property"]),
     "notes": "No hooks in /repo: the symbolic build instruments the unmodified sources with a compiler pass. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.json."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(CH), "claimed", len(NA), "not applicable")
