"""C04: concurrent fits that share inputs do not affect each other."""
import copy
import os
import random

import numpy as np

from .. import work, sched, snap as S
from ..core import Rng, StepLimit
from ..session import fit, raw, finish, same, inputs_snap, h, ok, violation, where, shrink_spec

COUNTS = {"quick": 700, "thorough": 14000}
RULE = ("one run = two or three caller threads, each fitting one model on shared data and weights objects, stepped line by line (or bytecode by bytecode) by the seeded "
        "scheduler; non-trivial when at least two threads were preempted inside spreg; distinct by (calls, options, schedule)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "real interpreter threads, run one at a time"]
STUB = ["the interpreter's choice of which thread runs next"]
ASSUME = ["threads switch between lines or bytecodes of spreg code; code of other libraries runs without being preempted",
          "each thread's result is compared with the same call made alone in the same process"]
MUST_HIT = ["switched", "same_call", "mixed_calls", "same_options", "opcodes", "three_threads", "regimes"]

XS = [e for e in work.ALL if work.EST[e]["kind"] == "xs" and not work.EST[e].get("slow") and ("fn" not in work.EST[e] or e in ("sputils", "regimes_tools"))]
SLOW = [e for e in work.ALL if work.EST[e].get("slow")]
PART = [e for e in work.ALL if e in XS or work.EST[e]["kind"] in ("panel", "sur")] + ["Skater_reg", "stge_classic", "OLS_Endog_Regimes", "GM_Lag_Endog_Regimes"]
#: what several kinds of call can take from one set of inputs
SHARED = ("y", "yb", "x", "yend", "q", "w", "coords", "regimes", "gwk", "bigy", "bigX", "bigyend", "bigq", "name_x", "name_yend", "name_q", "name_bigX", "name_bigy",
          "name_bigyend", "name_bigq", "slx_vars", "cols2regi", "params")


def gen(seed, i, tier):
    rng = Rng(seed, "C04", tier, i)
    est = PART[i // 4 % len(PART)]
    a = work.sample(rng, est, plain=0.4, **({"cores": False} if "cores" in work.EST[est]["opts"] else {}))
    slow = bool(work.EST[est].get("slow"))
    specs = [a]
    mode = rng.weighted([("same", 3), ("options", 3), ("mixed", 0 if slow else 4)])
    kind = work.EST[est]["kind"]
    for _ in range(2 if rng.flip(0.2) and not slow else 1):
        if mode == "same":
            b = copy.deepcopy(a)
        else:
            e2 = est
            if mode == "mixed":
                pool = [e for e in work.ALL if work.EST[e]["kind"] == kind and not work.EST[e].get("slow") and e in PART
                        and (not work.EST[e]["regimes"] or a["d"].get("nreg", 1) > 1) and e != "NSLX"]
                e2 = rng.pick(pool) if est != "NSLX" else est
            b = work.sample(rng, e2, plain=0.4)
            b["d"] = dict(a["d"])
            for k in ("_form", "_names"):
                b["o"][k] = a["o"][k]
            if "cores" in b["o"]:
                b["o"]["cores"] = False
            k = a["d"].get("k", 2)
            for m in ("slx_vars", "cols2regi"):
                if isinstance(b["o"].get(m), list):
                    b["o"][m] = (b["o"][m] + [True] * 8)[:k]
            work._reconcile(b)
            b["d"] = dict(a["d"])
            if b["o"].get("method") == "ord" and b["d"].get("w") == "knn":
                b["o"]["method"] = "full"
        specs.append(b)
    pol = rng.weighted([("uniform", 3), ("long", 3), ("first", 3), ("pct", 3)])
    op = rng.flip(0.2) and not slow
    q = {"uniform": rng.pick([2, 6, 20, 60]), "long": rng.pick([20, 80, 300]), "pct": rng.pick([30, 200, 600]), "first": 0}[pol] * (6 if op else 1)
    return {"specs": specs, "mode": mode, "opcodes": op, "policy": {"kind": pol, "q": max(q, 2), "seed": rng.randrange(1 << 30)}}


class Watch:
    """The shared objects and the process-wide state, looked at every time
    control changes hands."""

    def __init__(self, shared):
        self.w = shared.get("w")
        self.gwk = shared.get("gwk")
        self.arr = {k: v for k, v in shared.items() if isinstance(v, np.ndarray)}
        for k in ("bigy", "bigX", "bigyend", "bigq"):
            if k in shared:
                for r, v in shared[k].items():
                    self.arr["%s[%s]" % (k, r)] = v
        self.dicts = {k: (v, dict(v)) for k, v in shared.items() if isinstance(v, dict)}
        self.first = self.now()
        self.bad = None

    def now(self):
        out = {}
        for nm, w in (("w", self.w), ("gwk", self.gwk)):
            if w is not None:
                out[nm + ".transform"] = w.transform
                out[nm + ".weights"] = id(w.weights) if w.weights else None
                k0 = w.id_order[0]
                out[nm + ".weights of the first unit"] = tuple(w.weights[k0])
        for k, v in self.arr.items():
            out[k] = (v.shape, v.dtype.str, v.tobytes() if v.size < 4000 else v.ravel()[:64].tobytes())
        for k, (d, keep) in self.dicts.items():
            out[k] = tuple((r, id(v)) for r, v in d.items())
        out["np.random state"] = hash(np.random.get_state()[1].tobytes()) ^ np.random.get_state()[2]
        out["random state"] = hash(random.getstate())
        out["working directory"] = os.getcwd()
        return out

    def __call__(self, sc):
        if self.bad is None:
            now = self.now()
            for k in self.first:
                if now[k] != self.first[k]:
                    self.bad = (k, sc.switch_sites[-1][1:] if sc.switch_sites else None)
                    return


def build_all(specs):
    """Fresh inputs, one set, shared by all the calls."""
    a = work.make_args(specs[0])
    cases = []
    for j, s in enumerate(specs):
        if j == 0:
            args = a
        else:
            args = work.make_args(s)
            for k in SHARED:
                if k in args and k in a and type(args[k]) is type(a[k]) and S.diff(S.snap(args[k]), S.snap(a[k]), S.EXACT) is None:
                    args[k] = a[k]
        cases.append(work.build(s, args))
    return a, cases


def run(plan):
    specs = plan["specs"]
    ests = [s["est"] for s in specs]
    refs = [fit(s)[1] for s in specs]
    shared, cases = build_all(specs)
    before = [inputs_snap(c.args) for c in cases]
    sc = sched.Scheduler(plan["policy"], opcodes=plan["opcodes"], max_steps=12_000_000)
    shared.pop("reg_in", None)
    watch = Watch(shared)
    sc.invariant = watch
    ths = [sc.spawn(lambda c=c: raw(c.call)) for c in cases]
    stuck = None
    try:
        sc.run()
    except StepLimit as e:
        stuck = str(e)
    np_ = sum(1 for t in {s[0] for s in sc.switch_sites})
    probes = {"switched": int(np_ >= 2), "same_call": int(plan["mode"] == "same"), "mixed_calls": int(plan["mode"] == "mixed"), "same_options": int(plan["mode"] == "options"),
              "opcodes": int(plan["opcodes"]), "three_threads": int(len(specs) > 2), "regimes": int(any(work.EST[e]["regimes"] for e in ests))}
    sched_sig = h(sc.segments)
    common = dict(sig=h([ests, [s["o"] for s in specs], sched_sig]), nontrivial=np_ >= 2, log_hash=h([sc.segments[:5000], sc.switch_sites[:500]]), steps=sc.steps, probes=probes,
                  faults={"preemption": sc.switches}, sample={"calls": ests, "options": [{k: v for k, v in s["o"].items() if v} for s in specs],
                                                             "policy": plan["policy"]["kind"], "switches": sc.switches})
    facts = {"ests": sorted(ests)}
    log = {"segments": sc.segments[:3000], "switch_sites": sc.switch_sites[:200]}

    def bad(cls, msg):
        r = violation(cls, msg, facts=facts, log=log, **common)
        r["segments"] = sc.segments
        return r
    if stuck:
        return bad("C04:stuck", "%s running at the same time: %s" % (" and ".join(ests), stuck))
    for j, (t, ref, c) in enumerate(zip(ths, refs, cases)):
        if t.error is not None:
            return bad("C04:error", "%s in a concurrent thread: %s: %s" % (ests[j], type(t.error).__name__, t.error))
        d = same(ref, finish(t.result), S.Tol(1e-9, 1e-12) if ref.ok else c.tol)
        if d:
            return bad("C04:differs:%s" % where(d), "%s, run while %s ran in another thread on shared inputs, gave another result than alone: %s" % (
                ests[j], " and ".join(e for k, e in enumerate(ests) if k != j), d))
    if watch.bad:
        return bad("C04:scratch:%s" % watch.bad[0].split("[")[0], "%s: shared %s had another value while the call was under way%s" % (
            " and ".join(ests), watch.bad[0], " (at %s:%s)" % watch.bad[1] if watch.bad[1] else ""))
    for j, c in enumerate(cases):
        after = inputs_snap(c.args)
        for k in before[j]:
            d = S.diff(before[j][k], after[k], S.EXACT, "argument %s" % k)
            if d:
                return bad("C04:mutated:%s" % where(d), "%s: concurrent calls left a shared input changed: %s" % (" and ".join(ests), d))
    return ok(**common)


def shrink(plan, res):
    if len(plan["specs"]) > 2:
        for j in range(len(plan["specs"])):
            yield dict(plan, specs=plan["specs"][:j] + plan["specs"][j + 1:])
    if plan["policy"]["kind"] != "replay":
        if plan["opcodes"]:
            yield dict(plan, opcodes=False)
        for j, s in enumerate(plan["specs"]):
            if plan["mode"] == "same" and j == 0:
                for t in shrink_spec(s):
                    yield dict(plan, specs=[t] * len(plan["specs"]))
            elif plan["mode"] != "same":
                for t in shrink_spec(s):
                    if t["d"] == s["d"] and t["o"].get("_form") == s["o"].get("_form") and t["o"].get("_names") == s["o"].get("_names"):
                        yield dict(plan, specs=plan["specs"][:j] + [t] + plan["specs"][j + 1:])
        yield dict(plan, policy={"kind": "replay", "segments": res.get("segments", [])})
        return
    segs = plan["policy"]["segments"]
    n = len(segs)
    k = max(1, n // 2)
    while k >= 1:
        for j in range(0, n, k):
            cut = segs[j:j + k]
            rest = segs[:j] + segs[j + k:]
            if rest and rest != segs:
                yield dict(plan, policy={"kind": "replay", "segments": rest})
        if k == 1 or n > 400 and k < n // 64:
            break
        k //= 2
