"""Runs the check of one property: builds from /repo's working tree, runs the
property targets, writes the evidence file and prints VIOLATION lines."""
import concurrent.futures, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, mine
import checks as checks_mod

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """known: property=<id> match=/<regex on target + message>/ <description>"""
    out = []
    try:
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    except OSError:
        pass
    return out


def run_native(spec, binpath, prop, tier, seed, mined, tmp, scale):
    """One target of a native harness."""
    out = os.path.join(tmp, "out-%s-%s.json" % (spec["bin"], spec["target"]))
    secs = spec["secs"] * scale
    cmd = [binpath, "--run", spec["target"], "--seed", str(seed), "--secs", str(secs),
           "--jobs", str(spec.get("jobs", 8)), "--out", out, "--repdir", REPLAYS, "--prop", prop,
           "--mined", mined]
    if spec.get("maxcases"):
        cmd += ["--maxcases", str(spec["maxcases"])]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=%d:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0" % (0,)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True,
                       errors="replace")
    if not os.path.exists(out):
        raise RuntimeError("%s: rc=%d: %s" % (" ".join(cmd), r.returncode, r.stdout[-3000:]))
    d = json.load(open(out))
    d["binary"] = spec["bin"]
    if d["violation"]:
        rep = d["violation"]["replay"]
        with open(rep, "a") as f:
            f.write("# binary %s\n# re-run: python3 /verif/run.py %s --replay %s\n" % (spec["bin"], prop, rep))
    return d


def run_fuzz(spec, bins, prop, tier, seed, mined, tmp, scale):
    """libFuzzer on a target (coverage-guided), several seeds in parallel;
    an artifact is converted to a choice sequence, shrunk and re-checked."""
    fz, native = bins[spec["bin"]], bins[spec["native"]]
    secs = int(spec["secs"] * scale)
    n = spec.get("jobs", 8)
    env = dict(os.environ)
    env.update(PT_TARGET=spec["target"], PT_PROP=prop, PT_MINED=mined,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:symbolize=0",
               UBSAN_OPTIONS="print_stacktrace=0")
    procs = []
    for i in range(n):
        w = os.path.join(tmp, "fz-%s-%d" % (spec["target"], i))
        corpus = os.path.join(w, "corpus")
        os.makedirs(corpus)
        cmd = [fz, "-seed=%d" % (seed * 1000 + i + 1), "-max_total_time=%d" % secs, "-timeout=60",
               "-rss_limit_mb=4000", "-max_len=%d" % spec.get("max_len", 4096), "-print_final_stats=1",
               "-artifact_prefix=%s/crash-" % w, "-use_value_profile=%d" % (i & 1), corpus]
        log = open(os.path.join(w, "log"), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=w), w))
    evals = 0
    feats = 0
    corp = 0
    viol = None
    flaky = []
    for p, w in procs:
        try:
            p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        t = open(os.path.join(w, "log"), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", t)
        if m:
            evals += int(m[-1])
        else:
            m = re.findall(r"^#(\d+)\s", t, re.M)
            evals += int(m[-1]) if m else 0
        m = re.findall(r" ft: (\d+)", t)
        feats = max(feats, int(m[-1]) if m else 0)
        corp += len(os.listdir(os.path.join(w, "corpus")))
        for f in sorted(os.listdir(w)):
            if f.startswith("crash-") and not viol:
                if "oom-" in f or "slow-unit" in f:
                    continue
                out = os.path.join(w, "conv.json")
                subprocess.run([native, "--run", spec["target"], "--from-bytes", os.path.join(w, f),
                                "--out", out, "--repdir", REPLAYS, "--prop", prop, "--mined", mined, "--secs", "30"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
                if os.path.exists(out):
                    d = json.load(open(out))
                    if d["violation"]:
                        viol = d["violation"]
                        with open(viol["replay"], "a") as g:
                            g.write("# binary %s\n# re-run: python3 /verif/run.py %s --replay %s\n" % (spec["native"], prop, viol["replay"]))
                    else:
                        flaky.append("libFuzzer artifact not reproducible: " + t[-300:])
    return {"target": spec["target"] + " (libFuzzer)", "rule": "coverage-guided; distinct = inputs kept because they reached new coverage",
            "evaluations": evals, "distinct_nontrivial": corp, "exhaustive": False, "wall_s": secs,
            "samples": ["%d coverage features reached" % feats], "tags": {}, "flaky": flaky, "violation": viol, "binary": spec["bin"]}


def run_python(spec, prop, tier, seed, tmp, scale, bins):
    mod = importlib.import_module(spec["module"])
    return mod.run_target(spec["target"], prop=prop, tier=tier, seed=seed, secs=spec["secs"] * scale,
                   jobs=spec.get("jobs", 8), tmp=tmp, bins=bins, repdir=REPLAYS)


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 62)
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    check = checks_mod.CHECKS[prop]
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1], seed)
    only = argv[argv.index("--target") + 1] if "--target" in argv else None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    groups = check[tier] if tier in check else check["quick"]
    tmp = tempfile.mkdtemp(prefix="vt-%s-" % prop)
    try:
        os.chmod(tmp, 0o755)
        need = set()
        for g in groups:
            for s in g:
                for k in ("bin", "native"):
                    if k in s:
                        need.add(s[k])
                need.update(s.get("bins", []))
        bt = time.time()
        bins = build_bins(need)
        bt = time.time() - bt
        mined = mine.write(os.path.join(tmp, "mined"))
        results = []
        errors = []

        def one(s):
            if only and s["target"] != only:
                return None
            kind = s["kind"]
            if kind == "native":
                return run_native(s, bins[s["bin"]], prop, tier, seed, mined, tmp, scale)
            if kind == "fuzz":
                return run_fuzz(s, bins, prop, tier, seed, mined, tmp, scale)
            return run_python(s, prop, tier, seed, tmp, scale, bins)
        for g in groups:
            with concurrent.futures.ThreadPoolExecutor(max_workers=len(g)) as ex:
                for f in [ex.submit(one, s) for s in g]:
                    r = f.result()
                    if r is None:
                        continue
                    results += r if isinstance(r, list) else [r]
            if any(r["violation"] for r in results):
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = known_findings(prop)
    known_hit, viol = [], []
    for r in results:
        v = r["violation"]
        if not v:
            continue
        for rx, text in kf:
            if rx.search(r["target"] + ": " + v["message"]):
                known_hit.append(text)
                break
        else:
            viol.append((r, v))
    for rx, text in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    samples = []
    for r in results:
        for s in (r["samples"] or [])[:4]:
            samples.append("%s: %s" % (r["target"], s))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check["level"],
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": "; ".join("%s: %s" % (r["target"], r["rule"]) for r in results),
            "samples": samples[:60],
            "targets": [{k: r.get(k) for k in ("target", "binary", "evaluations", "discarded", "distinct_nontrivial",
                                               "enum_total", "exhaustive", "wall_s", "tags", "flaky")} for r in results],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"target": r["target"], "message": v["message"][:2000], "case": v.get("case", ""), "replay": v["replay"]} for r, v in viol],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print("%-32s evals=%-9d nontrivial=%-9d%s %.1fs %s" % (
            r["target"], r["evaluations"], r["distinct_nontrivial"], " exhaustive" if r.get("exhaustive") else "",
            r["wall_s"], ("flaky=%d" % len(r["flaky"])) if r.get("flaky") else ""))
        for f in (r.get("flaky") or [])[:3]:
            print("   irreproducible (not reported): " + f.replace("\n", " | ")[:300])
    print("build %.1fs total %.1fs" % (bt, time.time() - t0))
    if viol:
        for r, v in viol:
            print("target %s: %s" % (r["target"], v["message"][:1500]))
            print("case: %s" % v.get("case", ""))
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    return 0


def build_bins(need):
    todo = []
    out = {}
    for n in sorted(need):
        if n.startswith("lib:"):
            out[n] = build.build_shim(n[4:])
            continue
        variant, files = checks_mod.BINS[n]
        todo.append((n, variant, files))
    out.update(build.build(todo))
    return out


def replay(prop, path, seed):
    if path.endswith(".json"):
        d = json.load(open(path))
        tmp = tempfile.mkdtemp(prefix="vt-replay-")
        try:
            os.chmod(tmp, 0o755)
            mod = importlib.import_module(d["module"])
            bins = build_bins(d.get("bins", []))
            msg = mod.replay(d, tmp=tmp, bins=bins)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("case: %s" % json.dumps(d["case"]))
        print("FAILED: " + msg if msg else "passed")
        if msg:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if msg else 0
    b = None
    for line in open(path):
        m = re.match(r"# binary (\S+)", line)
        if m:
            b = m.group(1)
    bins = build_bins([b])
    with tempfile.NamedTemporaryFile() as mf:
        mine.write(mf.name)
        r = subprocess.run([bins[b], "--replay", path, "--mined", mf.name, "--prop", prop])
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return r.returncode


if __name__ == "__main__":
    try:
        rc = main(sys.argv)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
