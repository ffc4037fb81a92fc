"""C03: worker processes are bounded and released when the fit ends."""
from .. import work
from ..core import Rng
from ..session import h, ok, violation, shrink_spec
from . import _par

COUNTS = {"quick": 1800, "thorough": 24000}
RULE = ("one run = one fit of an estimator with a cores option in a simulated world (serial, parallel, parallel with a failing worker, or interrupted while "
        "waiting for workers); the number of live workers is an invariant during the run and must be zero after it; non-trivial when workers were started; "
        "distinct by (estimator, options, CPU count, faults, completion order)")
REAL, STUB = _par.REAL, _par.STUB
ASSUME = ["a pool's workers count as alive from construction until it is terminated, or closed/shut down with its tasks finished",
          "garbage collection is not counted as releasing workers"]
MUST_HIT = ["parallel", "interrupted", "serial", "failed"]


def gen(seed, i, tier):
    rng = Rng(seed, "C03", tier, i)
    est = work.CORES[i // 4 % len(work.CORES)]
    mode = rng.weighted([("parallel", 4), ("fault", 3), ("interrupt", 2), ("serial", 1)])
    spec = _par.gen_spec(rng, est, sep=0.95)
    nreg = spec["d"]["nreg"]
    faults = []
    if mode == "fault":
        kind = rng.pick(["MemoryError", "LinAlgError", "ValueError", "OSError", "kill", "unpicklable_args", "unpicklable_result", "spawn"])
        faults.append({"kind": "spawn", "pool": rng.randrange(2)} if kind == "spawn" else {"kind": kind, "task": rng.randrange(nreg)})
    elif mode == "interrupt":
        faults.append({"kind": "interrupt", "at": rng.randrange(nreg + 1)})
    return {"spec": spec, "mode": mode, "world": {"seed": rng.randrange(1 << 30), "ncpu": rng.pick([1, 2, 3, 4, 8, 16]), "memory": "inline", "faults": faults}}


def run(plan):
    spec, mode = plan["spec"], plan["mode"]
    est, nreg = spec["est"], spec["d"]["nreg"]
    P = _par.Parallel(spec, plan["world"], cores=mode != "serial")
    w = P.world
    bound = max(w.ncpu, nreg)
    probes = {"parallel": int(w.ntask > 1), "interrupted": int(P.interrupted is not None), "serial": int(mode == "serial"),
              "failed": int(P.out is not None and not P.out.ok and bool(w.fired))}
    common = dict(sig=h([est, _par.opts(spec), w.ncpu, plan["world"]["faults"], w.order, mode]), nontrivial=w.ntask > 0, log_hash=h(w.log), simtime=w.now,
                  steps=w.seq, probes=probes, faults=w.fired,
                  sample={"est": est, "mode": mode, "ncpu": w.ncpu, "peak_workers": w.peak, "faults": plan["world"]["faults"], "pools": len(w.pools)})
    bad = lambda cls, msg: violation("C03:%s:%s" % (cls, est), "%s (%s, %d CPUs, %d regimes): %s" % (est, mode, w.ncpu, nreg, msg), facts={"est": est, "mode": mode}, log=w.log, **common)
    if mode == "serial" and w.pools:
        return bad("serial", "a fit without cores started %d worker pool(s)" % len(w.pools))
    if w.peak > bound:
        return bad("peak", "%d worker processes alive at once, one pool would be %d" % (w.peak, bound))
    if P.hung:
        # C02 decides whether a fit may hang; workers of a hung fit are still held
        return bad("leak", "the fit hangs with %d workers alive: %s" % (P.live, P.hung))
    if P.live:
        how = "was interrupted" if P.interrupted is not None else ("returned" if P.out.ok else "raised %s" % P.out.etype)
        return bad("leak", "%d worker processes still alive after the call %s (pools %s)" % (P.live, how, P.owned))
    return ok(**common)


def shrink(plan, res):
    yield from _par.shrink_world(plan)
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
