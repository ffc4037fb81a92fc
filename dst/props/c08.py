"""C08: results do not depend on hash seed, global RNG, clock or object identity."""
import builtins
import os
import time

import numpy as np

from .. import work, remote, snap as S
from ..core import Rng
from ..session import fit, isolated, Frozen, same, h, ok, violation, where, shrink_spec

COUNTS = {"quick": 900, "thorough": 16000}
RULE = ("one run = one call made in two or three processes that differ in string hash seed, global random state, clock (offset, rate and jumps), locale, time zone, working directory, "
        "terminal size, garbage collection and heap layout; numbers, names, order, text and warnings must agree; non-trivial when the call succeeded; distinct by (call, options, environments)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "real processes with real hash randomisation"]
STUB = ["the clock (time.time, monotonic, perf_counter, process_time and their _ns forms, datetime.now via time)", "object addresses (seeded ballast allocations)"]
ASSUME = ["floating point may differ in the last bits between processes (alignment), never more", "the order within one neighbour list of a weights subset is libpysal's, and is not part of the result"]
MUST_HIT = ["string_regimes", "constant_columns", "clock_jump", "clock_back", "locale", "rng", "cwd", "search", "names"]

POOL = [e for e in work.ALL if not work.EST[e].get("slow")]
SLOW = [e for e in work.ALL if work.EST[e].get("slow")]
REGI = [e for e in work.ALL if work.EST[e]["regimes"]]


def warm():
    remote.warm(["0", "5", "31337", "9"])


reset = remote.reset


def gen(seed, i, tier):
    rng = Rng(seed, "C08", tier, i)
    j = i // 4
    est = POOL[j // 2 % len(POOL)] if j % 2 == 0 else rng.weighted([(rng.pick(REGI), 5), (rng.pick(SLOW), 1), (rng.pick(POOL), 4)])
    force = {"cores": False} if "cores" in work.EST[est]["opts"] else {}
    spec = work.sample(rng, est, plain=0.5, **force)
    if work.EST[est]["regimes"] and rng.flip(0.8):
        spec["d"]["reg"] = "str"
    if (work.EST[est]["kind"] == "xs" and "x" in work.EST[est]["args"].split() and est != "NSLX" and not work.EST[est].get("slow") and rng.flip(0.4)
            and not any(isinstance(spec["o"].get(k), list) for k in ("slx_vars", "cols2regi", "bstart"))):
        spec["d"]["k"] = 5
        nreg = spec["d"].get("nreg", 1)
        cst = []
        for col in (1, 2, 3, 4):
            if rng.flip(0.6):
                cst.append([col, "all" if rng.flip(0.25) or nreg < 2 else rng.randrange(nreg)])
        spec["d"]["cst"] = cst
        if rng.flip(0.7) and "regime_err_sep" in spec["o"]:
            spec["o"]["regime_err_sep"] = True
            if "regime_lag_sep" in spec["o"]:
                spec["o"]["regime_lag_sep"] = True
            work._reconcile(spec)
    envs = []
    for _ in range(rng.weighted([(1, 3), (2, 1)])):
        envs.append({"hash": rng.pick(["0", "5", "31337", "9"]), "np": rng.randrange(1 << 31), "py": rng.randrange(1 << 31),
                     "clock": {"start": rng.pick([0.0, 1.0e9, 4.0e9, -1.0e8]), "rate": rng.pick([0.0, 1e-6, 0.5, 100.0, 1e5]), "jumps": [[rng.randint(1, 30), rng.pick([-3600.0, -1e6, 1e7, -0.5])] for _ in range(rng.randint(0, 3))]},
                     "cwd": rng.pick(["/", "/tmp", "/usr"]), "tz": rng.pick(["UTC", "Asia/Kolkata", "America/Los_Angeles"]), "locale": rng.pick(["C", "C.UTF-8", "POSIX", ""]),
                     "columns": rng.pick(["10", "80", "500"]), "gc": rng.pick(["off", "tight", "normal"]), "ballast": rng.randrange(1 << 20), "cpus": rng.pick([1, 2, 64])})
    return {"spec": spec, "envs": envs}


class Clock:
    """Time that starts anywhere, runs at any rate and jumps."""

    def __init__(self, c):
        self.t, self.rate, self.jumps, self.n = c["start"], c["rate"], {a: b for a, b in c["jumps"]}, 0
        self.mono = 100.0
        self.jumped = self.back = 0

    def tick(self):
        self.n += 1
        self.t += self.rate
        self.mono += abs(self.rate)
        j = self.jumps.get(self.n)
        if j:
            self.t += j
            self.jumped += 1
            self.back += j < 0
        return self.t

    def wall(self):
        return self.tick()

    def monotonic(self):
        self.tick()
        return self.mono

    def install(self):
        time.time = self.wall
        time.time_ns = lambda: int(self.wall() * 1e9)
        for n in ("monotonic", "perf_counter", "process_time", "thread_time"):
            setattr(time, n, self.monotonic)
            setattr(time, n + "_ns", lambda: int(self.monotonic() * 1e9))
        time.sleep = lambda s: setattr(self, "mono", self.mono + max(0.0, s)) or setattr(self, "t", self.t + max(0.0, s))


_BALLAST = []


def elsewhere(spec, env):
    """Make the call in this (disposable) process under another environment."""
    import gc
    import locale
    import random
    S.W_ORDER = False
    r = random.Random(env["ballast"])
    for _ in range(r.randrange(1, 40)):
        _BALLAST.append(bytearray(r.randrange(16, 20000)))
    _BALLAST.append([object() for _ in range(r.randrange(5000))])
    case = work.build(spec)
    np.random.seed(env["np"])
    random.seed(env["py"])
    os.environ["TZ"] = env["tz"]
    time.tzset()
    os.environ["COLUMNS"], os.environ["LINES"] = env["columns"], "24"
    os.cpu_count = lambda: env["cpus"]
    os.chdir(env["cwd"])
    loc = 0
    try:
        locale.setlocale(locale.LC_ALL, env["locale"])
        loc = 1
    except locale.Error:
        pass
    if env["gc"] == "off":
        gc.disable()
    elif env["gc"] == "tight":
        gc.set_threshold(50)
    ck = Clock(env["clock"])
    ck.install()
    from ..session import capture
    o = Frozen(capture(case.call))
    return o, {"reads of the clock": ck.n, "clock jumps": ck.jumped, "locale": loc}


def run(plan):
    spec, envs = plan["spec"], plan["envs"]
    est = spec["est"]
    S.W_ORDER = False
    case = work.build(spec)
    ref = isolated(lambda: Frozen(fit(spec)[1]))
    probes = {k: 0 for k in MUST_HIT}
    probes["string_regimes"] = int(work.EST[est]["regimes"] and spec["d"].get("reg") == "str")
    probes["constant_columns"] = int(bool(spec["d"].get("cst")))
    probes["search"] = int(est in SLOW)
    probes["names"] = int(bool(spec["o"].get("_names")))
    faults, info = {}, []
    bad = None
    for env in envs:
        got, st = remote.POOL[env["hash"]].ask("dst.props.c08", "elsewhere", spec, env)
        probes["rng"] = probes["cwd"] = 1
        probes["locale"] |= st["locale"]
        probes["clock_jump"] |= int(bool(env["clock"]["jumps"]))
        probes["clock_back"] |= int(any(b < 0 for _, b in env["clock"]["jumps"]) or env["clock"]["start"] < 0)
        faults["other environment"] = faults.get("other environment", 0) + 1
        faults["clock reads"] = faults.get("clock reads", 0) + st["reads of the clock"]
        faults["clock jumps seen"] = faults.get("clock jumps seen", 0) + st["clock jumps"]
        d = same(ref, got, S.Tol(1e-9, 1e-12))
        if d is None and not ref.ok and ref.emsg != got.emsg:
            d = "message: %r != %r" % (ref.emsg[:200], got.emsg[:200])
        if d is None and ref.out != got.out:
            d = "printed output: %r != %r" % (ref.out[:200], got.out[:200])
        if d is None and ref.warns != got.warns:
            d = "warnings: %s != %s" % (ref.warns, got.warns)
        if d and bad is None:
            bad = (d, env)
    common = dict(sig=h([est, {k: v for k, v in spec["o"].items() if v}, envs]), nontrivial=ref.ok, log_hash=h([ref.etype, envs]), steps=len(envs), probes=probes, faults=faults,
                  sample={"est": est, "constant_columns": spec["d"].get("cst"), "envs": [{k: e[k] for k in ("hash", "cwd", "locale", "clock")} for e in envs]})
    if bad:
        return violation("C08:%s" % where(bad[0]), "%s gives another result in a process with hash seed %s, cwd %s, locale %r and clock %s: %s" % (
            est, bad[1]["hash"], bad[1]["cwd"], bad[1]["locale"], bad[1]["clock"], bad[0]), facts={"est": est}, log={"env": bad[1]}, **common)
    return ok(**common)


def shrink(plan, res):
    for j in range(len(plan["envs"])):
        if len(plan["envs"]) > 1:
            yield dict(plan, envs=plan["envs"][:j] + plan["envs"][j + 1:])
    e = plan["envs"][0]
    plain = {"np": 0, "py": 0, "clock": {"start": 1.0e9, "rate": 1e-6, "jumps": []}, "cwd": "/tmp", "tz": "UTC", "locale": "C.UTF-8", "columns": "80", "gc": "normal", "ballast": 1, "cpus": 8, "hash": "0"}
    for k, v in plain.items():
        if e[k] != v:
            yield dict(plan, envs=[dict(e, **{k: v})] + plan["envs"][1:])
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
