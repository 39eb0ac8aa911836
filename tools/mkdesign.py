#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between <!-- begin X --> and <!-- end X -->)."""
import os, sys, json, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
def bounds():
    o = []
    for c in sorted(CHECKS):
        o.append("* **%s** (%s)" % (c, ", ".join(sorted({r["unit"] for r in CHECKS[c]["runs"]}))))
        for r in CHECKS[c]["runs"]:
            o.append("  * `%s`: %s%s" % (r["entry"], r["bounds"], " (thorough only)" if r.get("thorough_only") else ""))
        for a in CHECKS[c].get("assumptions", []):
            o.append("  * assumed: " + a)
    return o
def seeds():
    o = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    res = {}
    p = H + "/tools/seed_results.json"
    if os.path.exists(p):
        res = json.load(open(p))
    for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
        d = json.load(open(m)); i = m.split("/")[-2]
        o.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), res.get(i, "?")))
    return o
def fixed():
    return ["* " + f[len("fixed: "):] for f in json.load(open(H + "/known_findings.json"))["fixed"]]
t = open(H + "/DESIGN.md").read()
for n, f in (("bounds", bounds), ("seeds", seeds), ("fixed", fixed)):
    t = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (n, n), lambda m: m.group(1) + "\n".join(f()) + "\n" + m.group(2), t, flags=re.S)
open(H + "/DESIGN.md", "w").write(t)
