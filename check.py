#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree by symbolic execution.

exit 0: no violation within the bounds; exit 1: VIOLATION line printed."""
import sys, os, subprocess, time, json, shutil, re, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

D = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(D, "build")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
UBSAN = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,unreachable,return,bool,enum"
SYMFLAGS = ["-std=c++11", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector",
            "-DVP_SYMBOLIC=1", "-w",
            "-fsanitize=" + UBSAN, "-fsanitize-trap=all",
            "-I" + os.path.join(D, "engine/shim"), "-I" + os.path.join(D, "harness")]
NATFLAGS = ["-std=c++11", "-O1", "-g1", "-w", "-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all",
            "-I" + os.path.join(D, "harness")]
NPROC = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def newer(out, srcs):
    if not os.path.exists(out):
        return True
    t = os.path.getmtime(out)
    return any(os.path.getmtime(s) > t for s in srcs)


def setup_common(engine=False):
    os.makedirs(BUILD, exist_ok=True)
    m = os.path.join(BUILD, "models.bc")
    src = os.path.join(D, "engine/models.cpp")
    hdrs = glob.glob(os.path.join(D, "engine/shim/*")) + glob.glob(os.path.join(D, "harness/vp.h"))
    if newer(m, [src] + hdrs):
        r = sh([CLANG] + SYMFLAGS + ["-fno-access-control", "-emit-llvm", "-c", src, "-o", m + ".tmp%d" % os.getpid()])
        if r.returncode:
            raise SystemExit("models.cpp does not compile:\n" + r.stdout)
        os.rename(m + ".tmp%d" % os.getpid(), m)
    n = os.path.join(BUILD, "native.o")
    src = os.path.join(D, "engine/native.cpp")
    if newer(n, [src] + hdrs):
        r = sh([CLANG, "-std=c++11", "-O1", "-g1", "-w", "-fno-access-control", "-c", src, "-o", n + ".tmp%d" % os.getpid()])
        if r.returncode:
            raise SystemExit("native.cpp does not compile:\n" + r.stdout)
        os.rename(n + ".tmp%d" % os.getpid(), n)
    if engine:
        e = os.path.join(BUILD, "vpsym")
        if newer(e, glob.glob(os.path.join(D, "engine/*.[hic]*"))):
            r = sh([os.path.join(D, "engine/build.sh"), BUILD])
            if r.returncode:
                raise SystemExit("engine does not build:\n" + r.stdout)


def build_unit(work, unit, defs):
    """unit: harness source file; returns (bc, native, log)"""
    src = os.path.join(D, "harness", unit)
    base = os.path.join(work, os.path.splitext(unit)[0])
    inc = ["-I" + os.path.join(REPO, "include")]

    def sym():
        r = sh([CLANG] + SYMFLAGS + defs + inc + ["-emit-llvm", "-c", src, "-o", base + ".bc"])
        if r.returncode:
            return r.stdout
        r = sh([LINK, "--only-needed", base + ".bc", os.path.join(BUILD, "models.bc"), "-o", base + ".l.bc"])
        return r.stdout if r.returncode else ""

    def nat():
        r = sh([CLANG] + NATFLAGS + defs + inc + [src, os.path.join(BUILD, "native.o"), "-o", base + ".nat", "-rdynamic", "-ldl", "-pthread"])
        return r.stdout if r.returncode else ""
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(sym), ex.submit(nat)
        return base + ".l.bc", base + ".nat", a.result(), b.result()


def merge(outdir):
    st, covers, inc, viols, cases, fns = {}, {}, {}, [], [], {}
    for p in sorted(glob.glob(outdir + "/part.*")):
        for line in open(p, errors="replace"):
            t = line.rstrip("\n").split("\t")
            if t[0] == "stat" and len(t) >= 3:
                v = float(t[2])
                st[t[1]] = max(st.get(t[1], 0), v) if t[1].startswith("max_") else st.get(t[1], 0) + v
            elif t[0] == "cover":
                covers[t[1]] = covers.get(t[1], 0) + int(t[2])
            elif t[0] == "inc":
                inc[t[1]] = inc.get(t[1], 0) + 1
            elif t[0] == "viol" and len(t) >= 6:
                viols.append(dict(kind=t[1], msg=t[2], where=t[3], inputs=t[4], sched=t[5]))
            elif t[0] == "case" and len(t) >= 3:
                cases.append((t[1], t[2]))
            elif t[0] == "fn" and len(t) >= 4:
                f = fns.setdefault(t[1], [t[2], t[3]])
                f[1] = "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(f[1], t[3]))
    return st, covers, inc, viols, cases, fns


def native_replay(nat, entry, params, lines, work, limit=20):
    """lines: list of (inputs|sched, obs or '-'); returns list of (code, text)"""
    f = tempfile.NamedTemporaryFile("w", dir=work, delete=False)
    for a, b in lines:
        f.write(a + "\t" + b + "\n")
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=71:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=72")
    cmd = [nat, "--entry", entry, "--limit", str(limit)]
    for k, v in params.items():
        cmd += ["--param", "%s=%s" % (k, v)]
    try:
        r = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=600)
        o = r.stdout
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    res, cur = [], []
    for l in o.splitlines():
        m = re.match(r"RESULT (\d+) (\d+)$", l)
        if m:
            res.append((int(m.group(2)), "\n".join(cur)))
            cur = []
        else:
            cur.append(l)
    while len(res) < len(lines):
        res.append((-1, "no result"))
    os.unlink(f.name)
    return res


def load_known():
    try:
        return json.load(open(os.path.join(D, "known_findings.json")))
    except FileNotFoundError:
        return dict(findings=[])


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        setup_common()
        return 0
    sys.path.insert(0, D)
    from checks import CHECKS
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    only = None
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cfg = CHECKS[prop]
    setup_common(engine=True)
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(BUILD, "work"))
    try:
        return run(prop, tier, seed, cfg, work, t0, only, "--verbose" in args or "-v" in args)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, cfg, work, t0, only, verbose):
    runs = [r for r in cfg["runs"] if not (tier == "quick" and r.get("thorough_only"))]
    if only:
        runs = [r for r in runs if r["entry"] == only]
    units = sorted(set((r["unit"], tuple(r.get("defs", []))) for r in runs))
    built = {}
    with ThreadPoolExecutor(max(1, NPROC // 2)) as ex:
        for u, res in zip(units, ex.map(lambda u: build_unit(work, u[0], list(u[1])), units)):
            built[u] = res
    for u, (bc, nat, e1, e2) in built.items():
        if e1 or e2:
            print("harness %s does not build against the current tree:\n%s" % (u[0], (e1 or e2)[:4000]))
            write_evidence(prop, tier, seed, t0, cfg, [], error="harness does not build")
            return 0 if os.environ.get("VP_LENIENT") else 2
    known = [k for k in load_known().get("findings", []) if k["property"] == prop]
    results, confirmed, unconfirmed = [], [], []
    printed = set()
    budget = cfg.get("budget", {}).get(tier, 700 if tier == "quick" else 5400)
    for r in runs:
        u = (r["unit"], tuple(r.get("defs", [])))
        bc, nat, _, _ = built[u]
        params = dict(r.get("params", {}))
        if tier == "thorough":
            params.update(r.get("thorough", {}))
        out = os.path.join(work, "out-%d" % len(results))
        os.makedirs(out)
        tl = r.get("time", 150) if tier == "quick" else r.get("time_thorough", 1500)
        left = budget - (time.time() - t0)
        tl = max(10, min(tl, left))
        cmd = [os.path.join(BUILD, "vpsym"), "--entry", r["entry"], "--out", out, "--jobs", str(NPROC), "--time", str(tl), "--seed", str(seed),
               "--max-steps", str(r.get("steps", 20000000)), "--preempt", str(r.get("preempt_thorough", r.get("preempt", 2)) if tier == "thorough" else r.get("preempt", 2)), "--cases", str(r.get("cases", 12)), "--mem", str(26000 // NPROC)]
        if r.get("race"):
            cmd.append("--race")
        for k, v in params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        cmd.append(bc)
        ts = time.time()
        try:
            pr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tl + 60, start_new_session=True)
            log, rc = pr.stdout, pr.returncode
        except subprocess.TimeoutExpired:
            log, rc = "timeout", -9
            sh(["pkill", "-9", "-f", out])
        wall = time.time() - ts
        st, covers, inc, viols, cases, fns = merge(out)
        if rc != 0:
            inc["engine exit %d: %s" % (rc, log[-300:])] = 1
        # native validation of sampled paths
        valid = mism = 0
        samples = []
        if cases and not r.get("no_replay"):
            import random
            rnd = random.Random(seed)
            cases.sort()
            pick = cases if len(cases) <= 60 else rnd.sample(cases, 60)
            for (inp, ob), (code, text) in zip(pick, native_replay(nat, r["entry"], params, [(a, b) for a, b in pick], work)):
                if code == 0:
                    valid += 1
                elif code in (66, 67, 68, 71, 72) or code > 128:
                    viols.append(dict(kind="native", msg="native run of a solver-generated case failed: " + text.strip().splitlines()[0][:200] if text.strip() else "native failure", where="", inputs=inp.split("|")[0], sched=inp.split("|")[1] if "|" in inp else ""))
                else:
                    mism += 1
                    inc["native replay disagrees (code %d): %s [%s]" % (code, text[-200:], inp[:300])] = 1
            samples = [c[0] for c in pick[:3]]
        # violations
        nv = 0
        seenmsg = {}
        for v in viols:
            key = (v["kind"], v["msg"])
            if seenmsg.get(key, 0) >= 3 or key in seenmsg and seenmsg[key] < 0:
                continue
            line = v["inputs"] + "|" + v["sched"]
            if r.get("no_replay"):
                ok, text = True, "schedule replayed inside the executor (threads are not replayed natively)"
                code = -2
            else:
                code, text = native_replay(nat, r["entry"], params, [(line, "-")], work)[0]
                ok = code in (66, 67, 68, 71, 72) or code > 128
            if not ok:
                seenmsg[key] = seenmsg.get(key, 0) + 1
                unconfirmed.append(dict(v, run=r["entry"], native=text[-500:], code=code))
                inc["counterexample not reproduced natively: %s: %s (native code %d)" % (v["kind"], v["msg"], code)] = 1
                continue
            kf = None
            for k in known:
                if k.get("entry") in (None, r["entry"]) and k.get("kind", v["kind"]) == v["kind"] and re.search(k["msg"], v["msg"]) and re.search(k.get("inputs", ""), v["inputs"]) and re.search(k.get("where", ""), v["where"]):
                    kf = k
            if kf:
                if kf["what"] not in printed:
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
                    printed.add(kf["what"])
                seenmsg[key] = seenmsg.get(key, 0) + 1
                continue
            seenmsg[key] = -1
            nv += 1
            rd = os.path.join(D, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (prop, r["entry"], len(confirmed)))
            json.dump(dict(property=prop, harness="harness/" + r["unit"], entry=r["entry"], params=params, kind=v["kind"], message=v["msg"], where=v["where"], inputs=v["inputs"], schedule=v["sched"], native_exit=code, native_output=text[-3000:],
                           how="build the harness natively (see check.py build_unit) and run: <binary> --entry %s <file with the inputs line>" % r["entry"]), open(path, "w"), indent=1)
            confirmed.append(path)
            print("counterexample in %s: %s: %s\n   at %s\n   inputs %s\n   native: %s" % (r["entry"], v["kind"], v["msg"], v["where"], v["inputs"][:600], text.strip()[-400:]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        missing = [c for c in cover_points(r["unit"], r["entry"]) if c not in covers]
        results.append(dict(run=r, params=params, st=st, covers=covers, missing=missing, inc=inc, wall=wall, fns=fns, valid=valid, mism=mism, samples=samples, nviol=nv, limit=tl))
        if verbose or os.environ.get("VP_VERBOSE"):
            print("run %s %s: wall %.1fs paths %d killed %d forks %d instr %d z3 %d (%.1fs, max %.2fs) validated %d mism %d" % (r["entry"], params, wall, st.get("paths", 0), st.get("assume_killed", 0), st.get("forks", 0), st.get("instructions", 0), st.get("z3_queries", 0), st.get("z3_time", 0), st.get("max_z3_time", 0), valid, mism))
            print("   covers", covers, "MISSING" if missing else "", missing)
            for k in inc:
                print("   INCOMPLETE:", k)
        if confirmed and time.time() - t0 > 60:
            break
    write_evidence(prop, tier, seed, t0, cfg, results, confirmed=confirmed, unconfirmed=unconfirmed)
    return 1 if confirmed else 0


_cov_cache = {}


def cover_points(unit, entry):
    """vp_cover points of one harness entry: those between its extern "C" definition and the next one."""
    if unit not in _cov_cache:
        d, cur = {}, None
        for line in open(os.path.join(D, "harness", unit)):
            m = re.match(r'extern "C" void (\w+)\(', line)
            if m:
                cur = m.group(1)
                d.setdefault(cur, [])
            elif line.startswith('}'):
                cur = None
            elif cur:
                d[cur] += re.findall(r'vp_cover\("([^"]+)"\)', line)
        _cov_cache[unit] = d
    return [c for c in _cov_cache[unit].get(entry, []) if not c.startswith("opt:")]


def write_evidence(prop, tier, seed, t0, cfg, results, confirmed=(), unconfirmed=(), error=None):
    tot = {}
    for x in results:
        for k, v in x["st"].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v
    fns = {}
    for x in results:
        for n, (f, bm) in x["fns"].items():
            if "/repo/" in f or "include/crab" in f:
                o = fns.get(n)
                fns[n] = "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o, bm)) if o and len(o) == len(bm) else bm
    names = sorted(fns)
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    except Exception:
        dem = names
    enc = [re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string", d)[:160] + " [%d/%d blocks]" % (fns[n].count("1"), len(fns[n])) for n, d in zip(names, dem) if "crab" in d]
    incomplete = sorted(set(k for x in results for k in x["inc"]))
    assertions = int(tot.get("assert_symbolic", 0) + tot.get("assert_concrete", 0))
    samples = []
    for x in results:
        for s in x["samples"][:2]:
            samples.append("%s: %s" % (x["run"]["entry"], s[:400]))
    cov = dict(
        states=int(tot.get("states", 0)),
        transitions=int(tot.get("instructions", 0)),
        traces_validated_against_impl=int(sum(x["valid"] for x in results)),
        samples=samples or ["none"],
        exhaustive=bool(results) and not incomplete and not error,
        paths_completed=int(tot.get("paths", 0)),
        paths_outside_assumptions=int(tot.get("assume_killed", 0)),
        forks=int(tot.get("forks", 0)),
        assertions_checked=assertions,
        assertions_symbolic=int(tot.get("assert_symbolic", 0)),
        solver=dict(queries=int(tot.get("z3_queries", 0)), sat=int(tot.get("z3_sat", 0)), unsat=int(tot.get("z3_unsat", 0)), unknown=int(tot.get("z3_unknown", 0)),
                    seconds=round(tot.get("z3_time", 0), 2), longest_query_s=round(tot.get("max_z3_time", 0), 3), answered_by_byte_domains=int(tot.get("domain_decided", 0)), answered_by_known_model=int(tot.get("model_reuse", 0)), cached=int(tot.get("cache_hits", 0)), evaluator_disagreements=int(tot.get("encoding_mismatch", 0))),
        functions_encoded=enc,
        functions_encoded_count=len(enc),
        bounds=[dict(harness=x["run"]["unit"], entry=x["run"]["entry"], what=x["run"].get("bounds", ""), params=x["params"], time_limit_s=x["limit"], wall_s=round(x["wall"], 1), paths=int(x["st"].get("paths", 0)),
                     complete=not x["inc"], cover_points={k: v for k, v in sorted(x["covers"].items())}, cover_points_not_reached=x["missing"]) for x in results],
        incomplete_because=incomplete,
        replay_disagreements=int(sum(x["mism"] for x in results)),
        counterexamples_not_reproduced=[dict(entry=v["run"], kind=v["kind"], msg=v["msg"]) for v in unconfirmed],
    )
    if error:
        cov["error"] = error
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "model_checking"), coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(D, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(D, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
