#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
from checks import CHECKS
NA = {}
exec(open(os.path.join(D, "tools/not_applicable.py")).read()) if os.path.exists(os.path.join(D, "tools/not_applicable.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none (no hooks: the checks compile the unmodified headers)", enable="nothing to enable", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        b = "; ".join(dict.fromkeys("%s: %s" % (r["entry"], r["bounds"]) for r in CHECKS[p]["runs"]))
        m["checks"].append(dict(property=p, quick_cmd="./check.py " + p, thorough_cmd="VERIF_TIER=thorough ./check.py " + p,
            technique="symbolic execution of the compiled code (LLVM IR) with SMT (Z3); counterexamples replayed natively" if not any(r.get("no_replay") for r in CHECKS[p]["runs"]) else "symbolic execution of the compiled code (LLVM IR) with SMT (Z3) over inputs and bounded-preemption thread schedules, happens-before race detection",
            level=CHECKS[p].get("level", "model_checking"),
            level_note=("Decided for every value within the bounds, nothing beyond them. Bounds: " + b)[:1900] + " Trusts clang's IR generation, the executor, its models of libstdc++/libc, and Z3 (sampled paths are re-run natively under ASan/UBSan and compared). " + " ".join(CHECKS[p].get("assumptions", []))))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
