#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md (between markers) from meta_props, known_findings and seeded/"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
chk = json.load(open(V + "/harness/checks.json"))
notes = json.load(open(V + "/bin/design_notes.json"))
def sect(name, body, text):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    new = b + "\n" + body.strip() + "\n" + e
    if "@@%s@@" % name in text: return text.replace("@@%s@@" % name, new)
    return re.sub(re.escape(b) + ".*?" + re.escape(e), lambda m: new, text, flags=re.S)
t = open(V + "/DESIGN.md").read()
P = []
for p in props:
    if p["id"] not in chk: continue
    c, n = chk[p["id"]], notes.get(p["id"], {})
    P.append("### %s %s\n\n%s\n\n* Code: %s\n* Decided by: %s\n* Oracle: %s\n* Bounds: %s\n* Outside: %s\n%s* Cost: %s\n* Beyond the tests: %s\n" % (
        p["id"], p["title"], p["statement"], ", ".join(p["anchors"]["files"]), n.get("how", "see harness/%s.cpp" % p["id"]), n.get("oracle", "-"),
        "; ".join(c["bounds"]), "; ".join(c["outside"]), ("* Assumes: %s\n" % "; ".join(c["assumptions"])) if c.get("assumptions") else "", n.get("cost", "-"), p["why_tests_cant"]))
t = sect("PROPS", "\n".join(P), t)
t = sect("NA", "\n".join("* **%s** %s" % (x["id"] if "id" in x else x["property"], x["reason"]) for x in man["not_applicable"]), t)
kf = json.load(open(V + "/known_findings.json"))["findings"]
t = sect("FIXES", "\n".join("* %s" % f["what"] for f in kf), t)
S = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    S.append("* `%s` (%s): %s. Needs: %s. %s" % (i, m["property"], m["what_it_breaks"], m["needs"], notes.get("seeds", {}).get(i, "Caught by %s quick." % m["property"])))
t = sect("SEEDS", "\n".join(S), t)
open(V + "/DESIGN.md", "w").write(t)
