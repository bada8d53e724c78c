"""Driver: python3-vt -m vp.run C01 [--tier quick|thorough] | --replay FILE | --worker ..."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

ENVV = {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0", "OMP_DYNAMIC": "false", "OPENBLAS_NUM_THREADS": "1",
        "OMP_THREAD_LIMIT": "64", "PYTHONHASHSEED": "0", "MALLOC_ARENA_MAX": "2", "PYTHONDONTWRITEBYTECODE": "1"}
STUCK = 60.0           # a single case running longer than this is treated as not terminating
SHRINK_BUDGET = 25.0   # seconds


def module(pid):
    return importlib.import_module("vp.props." + pid.lower())


def canon(case):
    return json.dumps(case, sort_keys=True)


def derive(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")


class StopShrink(BaseException):
    pass


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return VERIF


# ----------------------------------------------------------------- worker
def isolated(sub, case, env):
    """Run one case in a child process, so that a crash is an observation."""
    from vp.core import Fail, Skip
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(int(STUCK) + 30)
            out = {"ok": sub.run(case, env)}
        except (Fail, ArithmeticError, ValueError) as e:
            out = {"fail": str(e) if isinstance(e, Fail) else "the oracle cannot evaluate the result: %s %s" % (type(e).__name__, e)}
        except Skip as e:
            out = {"skip": str(e)}
        except BaseException:
            out = {"err": traceback.format_exc()}
        os.write(w, json.dumps(out, default=str).encode()[:60000])
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGALRM:
            raise Fail("the run did not terminate within %g s" % (STUCK + 30))
        raise Fail("the process died with signal %d (%s)" % (s, signal.Signals(s).name))
    if os.WEXITSTATUS(st) != 0 or not data:
        raise Fail("the process ended with exit code %d" % os.WEXITSTATUS(st))
    out = json.loads(data)
    if "fail" in out:
        raise Fail(out["fail"])
    if "skip" in out:
        raise Skip(out["skip"])
    if "err" in out:
        raise RuntimeError(out["err"])
    return out["ok"]


def worker(a):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from vp.core import Fail, Skip, Env
    mod = module(a.prop)
    cfg = json.load(open(a.cfg))
    if not cfg.get("nolimit"):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    env = Env(cfg["paths"], cfg["scratch"])
    res = {"evaluations": 0, "skipped": 0, "over_budget": 0, "nontrivial": [], "classes": collections.Counter(), "samples": [],
           "per_sub": {}, "fail": None, "errors": []}
    seen, t_end = set(), cfg["deadline"]
    lastf = os.path.join(cfg["scratch"], "last.%d.json" % a.shard)

    def note(sub, case, info):
        res["evaluations"] += 1
        d = res["per_sub"].setdefault(sub.name, {"evaluations": 0, "nontrivial": 0})
        d["evaluations"] += 1
        info = info or {}
        for c in info.get("classes", ()):
            res["classes"]["%s:%s" % (sub.name, c)] += 1
        if info.get("nontrivial"):
            h = hashlib.sha256((sub.name + canon(case)).encode()).hexdigest()[:16]
            if h not in seen:
                seen.add(h)
                d["nontrivial"] += 1
                if d["nontrivial"] <= 2:
                    res["samples"].append({"sub": sub.name, "case": case, "observed": info.get("obs")})

    for sub in mod.SUBS:
        if a.only and sub.name != a.only:
            continue
        total = sub.quick if cfg["tier"] == "quick" else sub.thorough
        total = int(total * cfg.get("scale", 1.0))
        n = total // cfg["shards"] + (1 if a.shard < total % cfg["shards"] else 0)
        if n == 0:
            continue
        best = {"case": None, "msg": None, "t": None}

        @hypothesis.seed(derive(cfg["seed"], mod.ID, sub.name, a.shard))
        @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)
        @given(sub.strategy)
        def test(case):
            if best["t"] is not None and time.time() - best["t"] > SHRINK_BUDGET:
                raise StopShrink()
            if best["t"] is None and time.time() > t_end:
                res["over_budget"] += 1
                return
            with open(lastf, "w") as f:
                json.dump({"property": mod.ID, "sub": sub.name, "case": case}, f)
            try:
                if sub.isolate or a.isolate:
                    info = isolated(sub, case, env)
                else:
                    info = sub.run(case, env)
            except Skip as e:
                res["skipped"] += 1
                res["classes"]["%s:skip:%s" % (sub.name, e)] += 1
                return
            except (Fail, ArithmeticError, ValueError) as e:
                if not isinstance(e, Fail):   # e.g. an eigenvalue problem handed NaN by the code under test
                    e = Fail("the oracle cannot evaluate the result: %s %s" % (type(e).__name__, e))
                if best["case"] is None or len(canon(case)) <= len(canon(best["case"])):
                    best["case"], best["msg"] = case, str(e)
                if best["t"] is None:
                    best["t"] = time.time()
                raise e
            if best["t"] is None:
                note(sub, case, info)

        try:
            test()
        except StopShrink:
            pass
        except Fail:
            pass
        except BaseException as e:
            if best["case"] is None:
                res["errors"].append("%s: %s" % (sub.name, traceback.format_exc()[-3000:]))
        if best["case"] is not None:
            res["fail"] = {"property": mod.ID, "sub": sub.name, "case": best["case"], "message": best["msg"]}
            break
    res["nontrivial"] = sorted(seen)
    res["classes"] = dict(res["classes"])
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(a.out + ".tmp", a.out)
    os._exit(0)


# ----------------------------------------------------------------- replay
def build_for(mod):
    from vp import build
    if hasattr(mod, "build"):
        return mod.build()
    return build.build(mod.VARIANTS, getattr(mod, "PARTS", ("core", "geom", "io")))


def child_env(mod):
    e = dict(os.environ)
    e.update(ENVV)
    e.update(getattr(mod, "ENV", {}))
    return e


def replay(path, quiet=False):
    """Exit 1 and a VIOLATION line when the saved case still violates its property."""
    rec = json.load(open(path))
    mod = module(rec["property"])
    paths = build_for(mod)
    sc = tempfile.mkdtemp(prefix="vp.", dir=scratch_base())
    try:
        cfg = {"paths": paths, "scratch": sc}
        cf = os.path.join(sc, "cfg.json")
        json.dump(cfg, open(cf, "w"))
        p = subprocess.run([sys.executable, "-m", "vp.run", "--replay-one", path, "--cfg", cf], cwd=VERIF, env=child_env(mod),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
        return p.returncode, p.stdout + p.stderr[-2000:]
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def replay_one(path, cfgf):
    from vp.core import Fail, Skip, Env
    rec = json.load(open(path))
    mod = module(rec["property"])
    cfg = json.load(open(cfgf))
    env = Env(cfg["paths"], cfg["scratch"])
    sub = [s for s in mod.SUBS if s.name == rec["sub"]][0]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        isolated(sub, rec["case"], env)
    except Fail as e:
        print("FAIL: %s" % e)
        sys.stdout.flush()
        os._exit(1)
    except Skip as e:
        print("outside the domain: %s" % e)
    print("holds")
    sys.stdout.flush()
    os._exit(0)


# ----------------------------------------------------------------- driver
def driver(a):
    t0 = time.time()
    mod = module(a.prop)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from vp import build
    try:
        paths = build_for(mod)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 3
    t_build = time.time() - t0
    shards = getattr(mod, "SHARDS", 8)
    budget = getattr(mod, "BUDGET", {"quick": 300.0, "thorough": 3000.0})[tier]
    sc = tempfile.mkdtemp(prefix="vp.", dir=scratch_base())
    code = 0
    try:
        cfg = {"paths": paths, "scratch": sc, "tier": tier, "seed": seed, "shards": shards, "deadline": time.time() + budget,
               "nolimit": getattr(mod, "NOLIMIT", False), "scale": a.scale}
        cf = os.path.join(sc, "cfg.json")
        json.dump(cfg, open(cf, "w"))
        env = child_env(mod)
        procs, results, crashed = {}, {}, []

        def spawn(k, isolate=False):
            out = os.path.join(sc, "res.%d.json" % k)
            err = open(os.path.join(sc, "err.%d" % k), "w")
            cmd = [sys.executable, "-m", "vp.run", "--worker", "--prop", a.prop, "--shard", str(k), "--cfg", cf, "--out", out]
            if isolate:
                cmd.append("--isolate")
            if a.only:
                cmd += ["--only", a.only]
            procs[k] = (subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=err, stderr=err, start_new_session=True), out, isolate)

        def kill(p):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()

        for k in range(shards):
            spawn(k)
        candidates, errors = [], []
        while procs:
            time.sleep(0.05)
            for k in list(procs):
                p, out, iso = procs[k]
                lastf = os.path.join(sc, "last.%d.json" % k)
                if p.poll() is None:
                    if not iso and os.path.exists(lastf) and time.time() - os.path.getmtime(lastf) > STUCK + 60:
                        kill(p)
                        del procs[k]
                        candidates.append(dict(json.load(open(lastf)), message="the run did not terminate"))
                    continue
                del procs[k]
                if os.path.exists(out):
                    r = json.load(open(out))
                    results[k] = r
                    errors += r["errors"]
                    if r["fail"]:
                        candidates.append(r["fail"])
                elif not iso:
                    spawn(k, isolate=True)     # same cases again, each in a child process: the crash becomes a shrinkable failure
                else:
                    errors.append("worker %d died with %s: %s" % (k, p.returncode, open(os.path.join(sc, "err.%d" % k)).read()[-2000:]))
            if candidates:
                for k in list(procs):
                    kill(procs[k][0])
                    del procs[k]
        viol = None
        for c in sorted(candidates, key=lambda c: len(canon(c["case"]))):
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (mod.ID, hashlib.sha256(canon(c).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(c, f, indent=1)
            runs = getattr(mod, "CONFIRM", (3, 3))
            good = 0
            log = ""
            for _ in range(runs[0]):
                try:
                    rc, log1 = replay(path)
                except subprocess.TimeoutExpired:
                    rc, log1 = 1, "timeout"
                good += rc == 1
                log = log1 or log
            print("counterexample (%s): %s" % (c["sub"], c["message"]))
            print("case: %s" % canon(c["case"])[:2000])
            if good >= runs[1]:
                viol = path
                break
            print("NOT CONFIRMED by replay (%d of %d): %s" % (good, runs[0], log[-500:]))
        # ------------------------------------------------- evidence
        cls = collections.Counter()
        non = set()
        per = {}
        samples = []
        ev = sk = ob = 0
        for r in results.values():
            cls.update(r["classes"])
            non.update(r["nontrivial"])
            ev += r["evaluations"]
            sk += r["skipped"]
            ob += r["over_budget"]
            for n, d in r["per_sub"].items():
                q = per.setdefault(n, {"evaluations": 0, "nontrivial": 0})
                q["evaluations"] += d["evaluations"]
                q["nontrivial"] += d["nontrivial"]
        for r in results.values():
            for s in r["samples"]:
                if sum(1 for t in samples if t["sub"] == s["sub"]) < 2:
                    samples.append(s)
        evidence = {
            "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": len(non), "rule": mod.RULE, "samples": samples,
                         "per_check": per, "classes": dict(sorted(cls.items())), "out_of_domain": sk, "not_run_out_of_time": ob,
                         "workers": shards, "unconfirmed": len(candidates) - (1 if viol else 0)},
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d out of domain, %d not run; build %.1fs, total %.1fs"
              % (mod.ID, tier, seed, ev, len(non), sk, ob, t_build, time.time() - t0))
        if a.verbose:
            for n, d in per.items():
                print("  ", n, d)
            for n, d in sorted(cls.items()):
                print("     ", n, d)
        if viol:
            print("VIOLATION property=%s replay=%s" % (mod.ID, viol))
            return 1
        for line in known_findings(mod.ID):
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, line))
        if errors:
            print("HARNESS ERROR:\n" + "\n".join(errors[:3]))
            return 3
        if ev == 0:
            print("HARNESS ERROR: nothing was explored")
            return 3
        return 0
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k["what"] for k in json.load(open(p)).get("open", []) if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--prop", dest="prop2")
    ap.add_argument("--tier")
    ap.add_argument("--replay")
    ap.add_argument("--replay-one")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--isolate", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--cfg")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    a.prop = a.prop or a.prop2
    if a.worker:
        return worker(a)
    if a.replay_one:
        return replay_one(a.replay_one, a.cfg)
    if a.replay:
        rc, log = replay(a.replay)
        print(log.strip())
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (json.load(open(a.replay))["property"], a.replay))
        sys.exit(rc)
    sys.exit(driver(a))


if __name__ == "__main__":
    main()
