#!/usr/bin/env python3
# mkseed.mk(id, property, file, [(old,new)...], needs, breaks, {filename: text}) : writes seeded/<id>/ from edits of /repo's HEAD
import json, os, subprocess
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sd2"
DEMO = """#!/bin/bash
# exit 0: the property holds in the demonstration; 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
g++ -std=c++11 -O1 -g -pthread %s -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" || exit 2
timeout 60 "$T/demo"
"""
def mk(id, prop, edits, needs, breaks, cpp, flags=""):
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    for f, old, new in edits:
        p = os.path.join(W, "include/crab", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    S = os.path.join(D, "seeded", id)
    os.makedirs(S, exist_ok=True)
    open(os.path.join(S, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    open(os.path.join(S, "demo.sh"), "w").write(DEMO % flags)
    os.chmod(os.path.join(S, "demo.sh"), 0o755)
    open(os.path.join(S, "demo.cpp"), "w").write(cpp)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(S, "meta.json"), "w"), indent=1)
