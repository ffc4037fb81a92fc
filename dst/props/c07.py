"""C07: results do not depend on what ran before, and no global state changes."""
import contextlib
import copy
import io
import os
import shutil
import tempfile

import numpy as np

from .. import work, world, sched, snap as S
from ..core import Rng
from ..session import fit, isolated, Frozen, capture, same, finish, EXC, Outcome, value_snap, h, ok, violation, where, shrink_spec, _ADDR

COUNTS = {"quick": 900, "thorough": 16000}
RULE = ("one run = a history of one to four calls in one process - completed, failed, interrupted at a seeded step, or made on the target's own objects with other contents - then a target call; "
        "its result is compared with the same call in a process without history, and process-wide state is compared before and after every call; non-trivial when the target fitted and "
        "the history had at least one call; distinct by (target, history, faults)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "a real forked process as the reference"]
STUB = ["when a failure or interruption strikes"]
ASSUME = ["process-wide state is what dst/world.py lists", "names that libraries bind for the first time while being imported lazily are not changes"]
MUST_HIT = ["interrupted", "failed", "same_estimator", "edited_objects", "shared_objects", "kept_model"]

POOL = [e for e in work.ALL if not work.EST[e].get("slow")]
SLOW = [e for e in work.ALL if work.EST[e].get("slow")]


def _one(rng, est, target=None):
    force = {"cores": False} if "cores" in work.EST[est]["opts"] else {}
    if est in SLOW:
        return work.sample(rng, est, plain=0.7, **force)
    return work.sample(rng, est, plain=0.5, **force)


def gen(seed, i, tier):
    rng = Rng(seed, "C07", tier, i)
    j = i // 4
    est = POOL[j % len(POOL)]
    if rng.flip(0.06):
        est = rng.pick(SLOW)
    target = _one(rng, est)
    hist = []
    for _ in range(rng.weighted([(1, 4), (2, 3), (3, 2), (4, 1)])):
        how = rng.weighted([("same", 3), ("other_options", 3), ("other", 4), ("edited", 2), ("shared", 2), ("twin", 2)])
        if how == "other":
            s = _one(rng, rng.pick(POOL) if rng.flip(0.93) else rng.pick(SLOW))
        elif how == "other_options":
            s = _one(rng, est)
        else:
            s = copy.deepcopy(target)
            if how == "twin":
                # everything alike except the numbers in the data
                r2 = Rng("twin", seed, tier, i, len(hist))
                if r2.flip(0.7):
                    s["d"]["seed"] = rng.randrange(1 << 30)
                if r2.flip(0.5) and s["d"].get("w") in ("rook", "queen"):
                    # as many observations, other neighbours
                    s["d"]["w"] = {"rook": "queen", "queen": "rook"}[s["d"]["w"]]
        f = rng.weighted([(None, 5), ("KeyboardInterrupt", 2), ("MemoryError", 2), ("LinAlgError", 1), ("ValueError", 1), ("bad", 2)])
        hist.append({"how": how, "spec": s, "fault": f, "at": int(rng.expovariate(1 / 400.0)) + 1 if rng.flip(0.7) else rng.randint(1, 6000), "badarg": rng.randrange(1 << 20),
                     "keep": rng.flip(0.5)})
    return {"target": target, "history": hist}


def spoil(case, r):
    """The same call with an argument a user could get wrong."""
    a = case.args
    arrs = [k for k in ("y", "yb", "x", "yend", "q") if isinstance(a.get(k), np.ndarray)]
    kind = r % 3
    if arrs and kind == 0:
        k = arrs[r // 3 % len(arrs)]
        a[k] = a[k][:-1]
    elif "x" in a and isinstance(a["x"], np.ndarray) and kind == 1:
        a["x"] = np.hstack((a["x"], a["x"][:, :1]))
    elif arrs:
        k = arrs[r // 3 % len(arrs)]
        a[k] = a[k].copy()
        a[k].ravel()[0] = np.nan
    elif "bigX" in a:
        a["bigX"] = dict(a["bigX"])
        k = list(a["bigX"])[-1]
        a["bigX"][k] = a["bigX"][k][:-2]
    elif "w" in a:
        a["w"] = None


def watched(f, at=None, exc=None):
    """Run f() with nothing between it and the process: (Outcome, change)."""
    o = Outcome()
    o.warns, o.snap, o.out = [], None, ""
    lf = sched.LineFault(at, EXC[exc]) if exc else None
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        a = world.take()
        try:
            if lf is not None:
                with lf:
                    o.value = f()
            else:
                o.value = f()
            o.ok, o.error, o.etype, o.emsg = True, None, None, None
        except (Exception, KeyboardInterrupt) as e:
            o.value, o.ok, o.error = None, False, None
            o.etype, o.emsg = type(e).__name__, _ADDR.sub("0x", str(e))
            del e
        b = world.take()
    o.out = buf.getvalue()
    return o, world.changed(a, b), lf


def edit(args, back=None):
    """Change the contents of the caller's objects in place; undo with `back`."""
    if back is None:
        keep = {}
        for k, v in args.items():
            if isinstance(v, np.ndarray) and k in ("y", "x", "yend", "q", "x1") and v.dtype.kind == "f":
                keep[k] = v.copy()
                if k == "x1":
                    v[:, 1:] = v[:, 1:] * 1.5 + 0.1
                else:
                    v *= 1.5
                    v += 0.1
            elif isinstance(v, dict) and k in ("bigy", "bigX"):
                keep[k] = {r: x.copy() for r, x in v.items()}
                for x in v.values():
                    (x[:, 1:] if k == "bigX" else x)[:] *= 1.5
            elif k == "w" and v is not None:
                keep[k] = v.transform
                if keep[k] == "B":
                    v.transform = "r"
        return keep
    for k, v in back.items():
        if k == "w":
            if args[k].transform != v:
                args[k].transform = v
        elif isinstance(v, dict):
            for r in v:
                args[k][r][:] = v[r]
        else:
            args[k][:] = v


def run(plan):
    tgt, hist = plan["target"], plan["history"]
    est = tgt["est"]
    home = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="dst_c07_")
    os.chdir(scratch)
    try:
        return _run(plan, tgt, hist, est)
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def _run(plan, tgt, hist, est):
    work.build(_WARM).call()   # imports that happen lazily have happened
    ref = isolated(lambda: Frozen(fit(tgt)[1]))
    tcase = None
    probes = {k: 0 for k in MUST_HIT}
    faults, names, kept = {}, [], []
    bad = None
    for step in hist:
        s, how, f = step["spec"], step["how"], step["fault"]
        back = None
        if how in ("edited", "shared"):
            if tcase is None:
                tcase = work.build(tgt)
            case = work.build(tgt, tcase.args)
            if how == "edited" and f != "bad" and work.EST[est].get("fn") is None:
                back = edit(tcase.args)
                probes["edited_objects"] = 1
            else:
                probes["shared_objects"] = 1
        else:
            case = work.build(s)
            probes["same_estimator"] |= int(s["est"] == est)
        if f == "bad":
            if how in ("edited", "shared"):
                case = work.build(s)
            try:
                spoil(case, step["badarg"])
                case = work.build(s, case.args)
            except Exception:
                continue
            o, ch, lf = watched(case.call)
        else:
            o, ch, lf = watched(case.call, step["at"], f)
            if lf is not None and lf.fired:
                faults[f] = faults.get(f, 0) + 1
                probes["interrupted"] = 1
        probes["failed"] |= int(not o.ok)
        names.append("%s %s" % (s["est"], "ok" if o.ok else "raising %s" % o.etype))
        if back is not None:
            edit(tcase.args, back)
        if ch and bad is None:
            bad = ("global:%s" % ch[0], "%s (%s) changed process-wide state: %s" % (s["est"], "completed" if o.ok else "raised %s" % o.etype, ch[1]), s["est"])
        if o.ok and step["keep"] and f is None and len(kept) < 2:
            kept.append((s["est"], o.value, value_snap(o.value), case))
            probes["kept_model"] = 1
    if tcase is None:
        tcase = work.build(tgt)
    else:
        tcase = work.build(tgt, tcase.args)
    got = capture(tcase.call)
    common = dict(sig=h([est, {k: v for k, v in tgt["o"].items() if v}, names, sorted(faults)]), nontrivial=got.ok and bool(hist), log_hash=h([names, faults, got.etype]), steps=len(hist) + 1,
                  probes=probes, faults=faults, sample={"target": est, "history": names})
    facts = {"est": est}

    def viol(cls, msg):
        return violation("C07:" + cls, msg, facts=facts, log={"history": names}, **common)
    if bad is not None:
        return viol(bad[0], bad[1])
    d = same(ref, finish(got), S.Tol(1e-9, 1e-12))
    if d is None and ref.out != got.out:
        d = "printed output: %r in a process without history, %r with it" % (ref.out[:80], got.out[:80])
    if d is None and ref.warns != got.warns:
        d = "warnings: %s in a process without history, %s with it" % (ref.warns, got.warns)
    if d:
        return viol("differs:%s:%s" % (est, where(d)), "%s after [%s] is not what it is in a process without history: %s" % (est, "; ".join(names), d))
    for e, m, s0, _ in kept:
        d = S.diff(s0, value_snap(m), S.EXACT, "earlier model")
        if d:
            return viol("kept:%s:%s" % (e, where(d)), "a %s model returned earlier changed when [%s; %s] ran: %s" % (e, "; ".join(names), est, d))
    return ok(**common)


_WARM = {"est": "OLS", "d": {"seed": 1, "r": 5, "c": 5, "k": 2, "nreg": 1}, "o": {"spat_diag": True, "white_test": True, "_form": "pd"}}


def shrink(plan, res):
    hist = plan["history"]
    for j in range(len(hist)):
        yield dict(plan, history=hist[:j] + hist[j + 1:])
    for j, s in enumerate(hist):
        if s["fault"]:
            yield dict(plan, history=hist[:j] + [dict(s, fault=None)] + hist[j + 1:])
        if s["how"] in ("edited", "shared"):
            yield dict(plan, history=hist[:j] + [dict(s, how="same")] + hist[j + 1:])
    for j, s in enumerate(hist):
        if s["how"] in ("other", "other_options"):
            for t in shrink_spec(s["spec"]):
                yield dict(plan, history=hist[:j] + [dict(s, spec=t)] + hist[j + 1:])
    if not any(s["how"] in ("edited", "shared") for s in hist):
        for t in shrink_spec(plan["target"]):
            yield dict(plan, target=t)
