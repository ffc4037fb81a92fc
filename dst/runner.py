"""Runs a property's seeded simulations over all cores, minimises and replays.

    python -m dst.runner check C01            (VERIF_SEED, VERIF_TIER)
    python -m dst.runner replay FILE
    python -m dst.runner plan C01 i           print run i's plan
    python -m dst.runner one C01 i            execute run i in this process

Every run i is a pure function of (VERIF_SEED, property, tier, i) and the code:
it executes in its own process, forked from a worker that has imported spreg
and done nothing else, under the PYTHONHASHSEED its index fixes.
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = sys.executable
HASHSEEDS = ["0", "1", "77", "4242"]
CPU_LIMIT = 60
RUN_TIMEOUT = float(os.environ.get("DST_RUN_TIMEOUT", "150"))
ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "LC_ALL": "C.UTF-8",
}


def prop(pid):
    return importlib.import_module("dst.props.%s" % pid.lower())


def env_for(hashseed):
    e = dict(os.environ)
    e.update(ENV)
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONPATH"] = VERIF + os.pathsep + REPO
    return e


def hashseed_of(i):
    return HASHSEEDS[i % len(HASHSEEDS)]


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ------------------------------------------------------------- inside workers


def boot():
    """Import the code under test with every seam in place."""
    import warnings
    warnings.simplefilter("ignore")
    sys.path[:0] = [p for p in (VERIF, REPO) if p not in sys.path]
    if os.environ.get("DST_ABSENT"):
        from dst import absent
        absent.before(os.environ["DST_ABSENT"].split(","))
    import numpy, scipy, scipy.sparse, scipy.sparse.linalg, scipy.optimize, scipy.stats, pandas, libpysal, libpysal.weights  # noqa
    from dst import simpool, simsolver
    simpool.install()
    simsolver.install()
    if os.environ.get("DST_ABSENT"):
        absent.late(os.environ["DST_ABSENT"].split(","))
    import spreg
    got = os.path.dirname(os.path.dirname(os.path.abspath(spreg.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise SystemExit("spreg was imported from %s, not from %s" % (got, REPO))
    from dst import sched
    sched.install_locks()
    return spreg


def execute(P, plan):
    """One simulated run in this process -> result dict."""
    from dst.core import HarnessError, TooSlow

    def slow(*_):
        # keep at it: a catch-all handler may have swallowed the first one
        signal.setitimer(signal.ITIMER_VIRTUAL, 1)
        raise TooSlow("more than %d s of CPU time" % CPU_LIMIT)
    t = time.time()
    signal.signal(signal.SIGVTALRM, slow)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            res = P.run(plan)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except TooSlow as e:
        sys.settrace(None)
        res = {"outcome": "ok", "nontrivial": False, "skipped": 1, "message": str(e)}
    except HarnessError as e:
        res = {"outcome": "harness", "message": "%s" % e, "trace": traceback.format_exc()[-1500:]}
    except (Exception, KeyboardInterrupt) as e:
        res = {"outcome": "harness", "message": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-3000:]}
    res["wall"] = time.time() - t
    return res


def forked(P, plan, timeout=RUN_TIMEOUT):
    """execute() in a forked child; a child that dies or stalls is an error."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setsid()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get("DST_STDERR"):
                os.dup2(dn, 2)
            res = execute(P, plan)
            data = json.dumps(res, default=str).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        return {"outcome": "harness", "message": "run ended by signal %d (timeout %ds)" % (os.WTERMSIG(st), timeout), "wall": timeout}
    if os.WEXITSTATUS(st) or not buf:
        return {"outcome": "harness", "message": "run process exited with %d" % os.WEXITSTATUS(st), "wall": 0}
    return json.loads(buf)


def worker_main(pid, tier, seed, idxs, out):
    boot()
    P = prop(pid)
    getattr(P, "warm", lambda: None)()
    with open(out, "w") as f:
        for i in idxs:
            plan = P.gen(seed, i, tier)
            res = forked(P, plan)
            if res["outcome"] == "harness":
                getattr(P, "reset", lambda: None)()
            res["i"] = i
            if res["outcome"] != "ok":
                res["plan"] = plan
            f.write(json.dumps(res, default=str) + "\n")
            f.flush()


def minimise_main(pid, src, dst, budget):
    boot()
    P = prop(pid)
    getattr(P, "warm", lambda: None)()
    with open(src) as f:
        plan, res = json.load(f)
    cls = res["vclass"]
    tries, t0 = 0, time.time()
    improved = True
    while improved and tries < budget and time.time() - t0 < 60:
        improved = False
        for cand in P.shrink(plan, res):
            if tries >= budget or time.time() - t0 > 60:
                break
            tries += 1
            r = forked(P, cand)
            if r["outcome"] == "violation" and r.get("vclass") == cls:
                plan, res, improved = cand, r, True
                break
    with open(dst, "w") as f:
        json.dump([plan, res, tries], f, default=str)


# --------------------------------------------------------------- orchestration


def spawn(mode, payload, hashseed):
    fd, path = tempfile.mkstemp(prefix="dst_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(payload, f, default=str)
    return subprocess.Popen([PYTHON, "-m", "dst.runner", mode, path], env=env_for(hashseed), cwd=VERIF,
                            stdout=sys.stderr, stderr=sys.stderr), path


def run_batch(pid, tier, seed, total, jobs):
    groups = {}
    for i in range(total):
        groups.setdefault(hashseed_of(i), []).append(i)
    tasks = []
    per = max(1, jobs // len(groups))
    for hs, idxs in groups.items():
        for j in range(per):
            part = idxs[j::per]
            if part:
                tasks.append((hs, part))
    live, results, errors = [], [], []
    tmp = tempfile.mkdtemp(prefix="dst_")
    files = []
    while tasks or live:
        while tasks and len(live) < jobs:
            hs, part = tasks.pop(0)
            out = os.path.join(tmp, "o%d" % len(files))
            files.append(out)
            p, path = spawn("_worker", [pid, tier, seed, part, out], hs)
            live.append((p, path, len(part)))
        for it in list(live):
            p, path, n = it
            if p.poll() is not None:
                live.remove(it)
                os.unlink(path)
                if p.returncode:
                    errors.append("worker exited with %s" % p.returncode)
        time.sleep(0.02)
    for out in files:
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    results.append(json.loads(line))
            os.unlink(out)
    os.rmdir(tmp)
    results.sort(key=lambda r: r["i"])
    if len(results) != total:
        errors.append("%d of %d runs reported" % (len(results), total))
    return results, errors


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == pid]


def matches(k, res):
    return all(str(res.get("facts", {}).get(a)) == str(b) for a, b in k["match"].items())


def check(pid, tier, seed):
    P = prop(pid)
    t0 = time.time()
    total = P.COUNTS[tier]
    if os.environ.get("DST_COUNT"):
        total = int(os.environ["DST_COUNT"])
    jobs = int(os.environ.get("DST_JOBS", os.cpu_count() or 8))
    print("property=%s tier=%s VERIF_SEED=%s runs=%d" % (pid, tier, seed, total), flush=True)
    results, errors = run_batch(pid, tier, seed, total, jobs)
    viol = [r for r in results if r["outcome"] == "violation"]
    harness = [r for r in results if r["outcome"] == "harness"]
    known = known_findings(pid)
    new, seen = [], {}
    for r in viol:
        hit = [k for k in known if matches(k, r)]
        if hit:
            seen.setdefault(hit[0]["id"], []).append(r)
        else:
            new.append(r)
    for k in known:
        if k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, k["what"], len(seen[k["id"]])))
    lines = []
    if new:
        classes = {}
        for r in new:
            classes.setdefault(r["vclass"], []).append(r)
        for n, (cls, rs) in enumerate(sorted(classes.items(), key=lambda t: -len(t[1]))[:0 if os.environ.get("DST_VERBOSE") else 3]):
            path = write_replay(pid, seed, tier, rs[0], n)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("# %d run(s): %s" % (len(rs), rs[0]["message"]))
        if os.environ.get("DST_VERBOSE"):
            for cls, rs in sorted(classes.items(), key=lambda t: -len(t[1])):
                print("#   %4d  run %-5d %s | %s" % (len(rs), rs[0]["i"], cls, rs[0]["message"][:300]))
        if len(classes) > 3:
            print("# and %d further violation classes" % (len(classes) - 3))
    evidence(P, pid, tier, seed, results, new, seen, time.time() - t0)
    for h in harness[:3]:
        print("HARNESS-ERROR run %s: %s\n%s" % (h.get("i"), h["message"], h.get("trace", "")), file=sys.stderr)
    for e in errors:
        print("HARNESS-ERROR %s" % e, file=sys.stderr)
    for line in lines:
        print(line)
    print("runs=%d ok=%d violations=%d known=%d harness_errors=%d wall=%.1fs" % (
        len(results), sum(r["outcome"] == "ok" for r in results), len(new), sum(map(len, seen.values())), len(harness) + len(errors), time.time() - t0))
    sys.stdout.flush()
    if lines or new:
        return 1
    if harness or errors:
        return 2
    skipped = sum(r.get("skipped", 0) for r in results)
    if os.environ.get("DST_VERBOSE"):
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:6]:
            print("# slow: run %s %.1fs %s" % (r.get("i", r.get("run")), r.get("wall", 0), json.dumps(r.get("sample"), default=str)[:200]))
    if skipped > max(5, 0.03 * len(results)):
        print("HARNESS-ERROR %d runs exceeded %d s of CPU time" % (skipped, CPU_LIMIT), file=sys.stderr)
        return 2
    zero = [p for p in getattr(P, "MUST_HIT", []) if not sum(r.get("probes", {}).get(p, 0) for r in results)]
    if zero and not os.environ.get("DST_COUNT"):
        print("HARNESS-ERROR probes never hit: %s" % zero, file=sys.stderr)
        return 2
    return 0


def write_replay(pid, seed, tier, res, n):
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    hs = hashseed_of(res["i"])
    fd, src = tempfile.mkstemp(prefix="dst_min_")
    with os.fdopen(fd, "w") as f:
        json.dump([res["plan"], res], f, default=str)
    dst = src + ".out"
    p, path = spawn("_minimise", [pid, src, dst, 60], hs)
    p.wait()
    os.unlink(path)
    plan, mres, tries = res["plan"], res, 0
    if os.path.exists(dst):
        with open(dst) as f:
            plan, mres, tries = json.load(f)
        os.unlink(dst)
    os.unlink(src)
    out = os.path.join(rdir, "%s_seed%s_%s_%d.json" % (pid, seed, tier, n))
    doc = {"property": pid, "verif_seed": seed, "tier": tier, "run": res["i"], "pythonhashseed": hs, "plan": plan,
           "violation": {k: mres.get(k) for k in ("vclass", "message", "facts", "log")}, "original_plan": res["plan"], "minimiser_tries": tries,
           "replay_cmd": "cd %s && sh check replay %s" % (VERIF, os.path.relpath(out, VERIF))}
    with open(out, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    return os.path.relpath(out, VERIF)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    p, tmp = spawn("_replay", [doc["property"], doc["plan"]], doc["pythonhashseed"])
    rc = p.wait()
    os.unlink(tmp)
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return rc


def merge(results, key):
    out = {}
    for r in results:
        for k, v in (r.get(key) or {}).items():
            if isinstance(v, (int, float)):
                out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def evidence(P, pid, tier, seed, results, new, seen, wall):
    sigs = {r.get("sig") for r in results if r.get("sig") and r.get("nontrivial", True)}
    sims = len(results)
    samples = []
    for r in results:
        if r.get("sample") and len(samples) < 6:
            samples.append(r["sample"])
    cov = {
        "evaluations": sum(int(r.get("evals", 1)) for r in results),
        "distinct_nontrivial": len(sigs),
        "rule": P.RULE,
        "samples": samples or [P.gen(seed, 0, tier)],
        "simulated_runs": sims,
        "runs_per_hour": int(sims / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(sims / max(wall, 1e-9) * 3600),
        "simulated_time": round(sum(float(r.get("simtime", 0)) for r in results), 3),
        "simulated_steps": int(sum(int(r.get("steps", 0)) for r in results)),
        "faults_fired": merge(results, "faults"),
        "probes": merge(results, "probes"),
        "distinct_event_logs": len({r.get("log_hash") for r in results if r.get("log_hash")}),
        "event_log_digest": digest([r.get("log_hash") for r in results]),
        "skipped_too_slow": sum(r.get("skipped", 0) for r in results),
        "harness_errors": sum(r["outcome"] == "harness" for r in results),
        "real_code": P.REAL,
        "stubbed": P.STUB,
        "hash_seeds": HASHSEEDS,
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": P.ASSUME, "wall_s": round(wall, 2), "violations": len(new)}
    if seen:
        doc["coverage"]["known_findings"] = {k: len(v) for k, v in seen.items()}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))


def main(argv):
    cmd = argv[0]
    if cmd == "_worker":
        with open(argv[1]) as f:
            worker_main(*json.load(f))
        return 0
    if cmd == "_minimise":
        with open(argv[1]) as f:
            minimise_main(*json.load(f))
        return 0
    if cmd == "_replay":
        with open(argv[1]) as f:
            pid, plan = json.load(f)
        boot()
        P = prop(pid)
        getattr(P, "warm", lambda: None)()
        res = forked(P, plan)
        print(json.dumps(res, indent=1, default=str)[:6000], file=sys.stderr)
        return {"ok": 0, "violation": 1}.get(res["outcome"], 2)
    if cmd == "_serve":
        from dst import remote
        return remote.serve()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if cmd == "check":
        for a in argv[2:]:
            if a in ("quick", "thorough"):
                tier = a
        return check(argv[1], tier, seed)
    if cmd == "replay":
        return replay(argv[1])
    if cmd in ("plan", "one"):
        boot()
        P = prop(argv[1])
        getattr(P, "warm", lambda: None)()
        plan = P.gen(seed, int(argv[2]), tier)
        print(json.dumps(plan))
        if cmd == "one":
            print(json.dumps(execute(P, plan), indent=1, default=str)[:8000])
        return 0
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
