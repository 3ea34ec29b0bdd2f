"""Drives Hypothesis in several processes with a time budget.

check(case, env) raises Bad on a violation; case must be JSON-able.
The minimal failing case is re-run before it is reported."""
import faulthandler, hashlib, json, multiprocessing, os, shutil, struct, tempfile, time, traceback
import hypothesis
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings


class Bad(Exception):
    pass


class _Stop(BaseException):
    pass


class Env:
    """What a case may use: bins and a scratch directory."""
    def __init__(self, bins, tmp, prop):
        self.bins, self.base, self.prop, self.n = bins, tmp, prop, 0
        self.tags, self.nt = {}, False

    def fresh(self):
        self.n += 1
        d = os.path.join(self.base, "c%d" % self.n)
        os.mkdir(d)
        return d

    def tag(self, t):
        self.tags[t] = self.tags.get(t, 0) + 1

    def nontrivial(self):
        self.nt = True


def enc_bytes(b):
    return b.hex()


def run_case(check, case, env):
    try:
        check(case, env)
    except Bad as e:
        return str(e)
    except (FileNotFoundError, ValueError, IndexError, KeyError, struct.error) as e:
        # What the program left behind could not be read at all (no output
        # file, unparsable text...); counts only if it repeats.
        fr = traceback.extract_tb(e.__traceback__)[-1]
        return "unusable result: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(fr.filename), fr.lineno)
    finally:
        for f in os.listdir(env.base):
            shutil.rmtree(os.path.join(env.base, f), ignore_errors=True)
    return None


def _worker(w, strategy, check, bins, tmp, prop, sd, deadline, stop, q, maxcases):
    faulthandler.dump_traceback_later(max(1, deadline - time.time()) + 100)
    base = os.path.join(tmp, "w%d-%d" % (w, os.getpid()))
    os.mkdir(base)
    os.chmod(base, 0o777)
    env = Env(bins, base, prop)
    st = {"n": 0, "hashes": set(), "samples": [], "fail": None, "tfail": None, "err": None, "wl": 0}

    def body(case):
        now = time.time()
        if st["tfail"] is None and (now > deadline or stop.is_set() or st["n"] >= maxcases):
            raise _Stop()
        if st["tfail"] is not None and now > st["tfail"] + 30:
            raise _Stop()
        env.nt = False
        st["n"] += 1
        msg = run_case(check, case, env)
        if env.nt:
            h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()[:8]
            if h not in st["hashes"]:
                st["hashes"].add(h)
                if len(st["samples"]) < 12 and len(st["hashes"]) % 7 == 1:
                    st["samples"].append(json.dumps(case)[:300])
        if msg:
            if st["tfail"] is None:
                st["tfail"] = now
            st["fail"] = (case, msg)
            raise Bad(msg)
    rnd = 0
    try:
        while time.time() < deadline and not stop.is_set() and not st["fail"] and st["n"] < maxcases:
            t = given(strategy)(body)
            t = settings(max_examples=300, database=None, deadline=None, derandomize=False,
                         suppress_health_check=list(HealthCheck),
                         phases=[Phase.generate, Phase.shrink], print_blob=False)(t)
            t = hseed(sd * 1000003 + w * 7919 + rnd)(t)
            rnd += 1
            try:
                t()
            except _Stop:
                break
            except Bad:
                break
            except (hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure):
                break
    except BaseException:
        st["err"] = traceback.format_exc()
    shutil.rmtree(base, ignore_errors=True)
    if st["fail"]:
        stop.set()
    q.put((w, st["n"], len(st["hashes"]), st["samples"][:12], env.tags, st["fail"], st["err"]))


def drive(name, strategy, check, rule, prop, seed, secs, jobs, tmp, bins, repdir, module, binnames, maxcases=1 << 60):
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    d = tempfile.mkdtemp(prefix="%s-" % name, dir=tmp)
    os.chmod(d, 0o777)
    ps = [ctx.Process(target=_worker, args=(w, strategy, check, bins, d, prop, seed, t0 + secs, stop, q, maxcases)) for w in range(jobs)]
    for p in ps:
        p.start()
    got = []
    while len(got) < len(ps) and time.time() < t0 + secs + 150:
        try:
            got.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    tags, fails, samples, errs = {}, [], [], []
    for w, n, nh, sm, tg, fl, er in sorted(got, key=lambda x: x[0]):
        samples += sm[:3]
        for k, v in tg.items():
            tags[k] = tags.get(k, 0) + v
        if fl:
            fails.append(fl)
        if er:
            errs.append(er)
    if errs:
        raise RuntimeError("%s: harness error: %s" % (name, errs[0][-3000:]))
    if not got:
        raise RuntimeError("%s: no worker answered" % name)
    viol, flaky = None, []
    for case, msg in sorted(fails, key=lambda f: len(json.dumps(f[0]))):
        env = Env(bins, os.path.join(d, "confirm"), prop)
        os.makedirs(env.base, exist_ok=True)
        os.chmod(env.base, 0o777)
        again = [run_case(check, case, env) for _ in range(3)]
        again = [m for m in again if m]
        if len(again) >= 2:
            rep = os.path.join(repdir, "%s-%s-%s.json" % (prop, name, hashlib.sha256(msg.encode()).hexdigest()[:6]))
            json.dump({"module": module, "target": name, "property": prop, "bins": binnames, "case": case, "message": again[0]}, open(rep, "w"), indent=1)
            viol = {"replay": rep, "message": again[0], "case": json.dumps(case)[:1500]}
            break
        flaky.append(msg)
    shutil.rmtree(d, ignore_errors=True)
    return {"target": name, "rule": rule, "evaluations": sum(g[1] for g in got), "distinct_nontrivial": sum(g[2] for g in got),
            "samples": samples[:12], "exhaustive": False, "wall_s": time.time() - t0, "tags": tags, "flaky": flaky, "violation": viol,
            "binary": ",".join(binnames)}


def replay(check, d, tmp, bins):
    env = Env(bins, os.path.join(tmp, "replay"), d["property"])
    os.makedirs(env.base)
    return run_case(check, d["case"], env)
