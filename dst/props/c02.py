"""C02: a failing worker is never silent, partial or a hang."""
from .. import work, simpool
from ..core import Rng, TooSlow
from ..session import fit, same, h, ok, violation, shrink_spec
from . import _par

COUNTS = {"quick": 1800, "thorough": 24000}
RULE = ("one run = one separate-regimes fit with cores=True under a simulated process pool with 1-3 injected worker failures, judged against the fault-free "
        "serial fit, followed by a fault-free refit; non-trivial when at least one fault fired; distinct by (estimator, options, faults, completion order)")
REAL, STUB = _par.REAL, _par.STUB
ASSUME = ["a worker killed under multiprocessing.Pool is modelled as CPython behaves: the task is never completed; under an executor every pending future breaks",
          "a spawn failure is an OSError from process creation"]
MUST_HIT = ["raised", "fault_fired", "recovered"]
KINDS = [("MemoryError", 3), ("LinAlgError", 2), ("ValueError", 2), ("OSError", 2), ("InjectedFault", 2), ("late", 2), ("unpicklable_result", 2),
         ("unpicklable_args", 2), ("kill", 4), ("strike", 7)]
STRIKES = ["MemoryError", "MemoryError", "LinAlgError", "InjectedFault", "OSError"]


def gen(seed, i, tier):
    rng = Rng(seed, "C02", tier, i)
    est = work.CORES[i // 4 % len(work.CORES)]
    spec = _par.gen_spec(rng, est, sep=1.0)
    nreg = spec["d"]["nreg"]
    faults = []
    if rng.flip(0.12):
        faults.append({"kind": "spawn", "pool": rng.randrange(2 if rng.flip() else 1)})
    tasks = list(range(nreg))
    rng.shuffle(tasks)
    # a clean run now and then keeps the check honest about false alarms
    nf = rng.weighted([(1, 6), (2, 2), (3, 1), (0, 1)])
    for t in tasks[:nf]:
        f = {"kind": rng.weighted(KINDS), "task": t}
        if f["kind"] == "strike":
            f.update(exc=rng.pick(STRIKES), seed=rng.randrange(1 << 30))
        faults.append(f)
    mem = rng.weighted([("inline", 10), ("fork", 1), ("pristine", 1)])
    return {"spec": spec, "world": {"seed": rng.randrange(1 << 30), "ncpu": rng.pick([1, 2, 3, 4, 16]), "memory": mem, "faults": faults}}


def chain(e):
    seen = []
    while e is not None and e not in seen and len(seen) < 8:
        seen.append(e)
        if isinstance(e, BaseExceptionGroup):
            for x in e.exceptions:
                seen += chain(x)
        e = e.__cause__ or e.__context__
    return seen


def run(plan):
    spec = plan["spec"]
    est = spec["est"]
    case, ref = fit(spec)
    try:
        P = _par.Parallel(spec, plan["world"])
    except TooSlow as e:
        return violation("C02:hang:%s" % est, "%s: the fit with failing workers does not finish (%s); the fault-free one does" % (est, e), facts={"est": est})
    w = P.world
    fired = sum(w.fired.values())
    probes = {"fault_fired": int(bool(fired)), "raised": int(bool(fired and P.out is not None and not P.out.ok))}
    common = dict(sig=h([est, _par.opts(spec), plan["world"]["faults"], w.order]), nontrivial=bool(fired), log_hash=h(w.log), simtime=w.now, steps=w.seq,
                  probes=probes, faults=w.fired, sample={"est": est, "faults": plan["world"]["faults"], "order": w.order, "fired": w.fired})
    facts = {"est": est, "faults": sorted(w.fired)}
    bad = lambda cls, msg: violation("C02:%s:%s" % (cls, est), "%s: %s (faults fired: %s)" % (est, msg, w.fired), facts=facts, log=w.log, **common)
    if P.hung:
        return bad("hang", "the fit never returns: " + P.hung)
    if not fired:
        d = same(ref, P.out, case.tol)
        return bad("faultless", "without a fault the parallel fit differs: " + d) if d else ok(**common)
    if P.out.ok:
        # surviving the fault is fine if the answer is the right one
        d = same(ref, P.out, case.tol)
        if d:
            return bad("silent", "a model was returned although a worker failed, and it differs from the fault-free one: " + d)
    elif ref.ok:
        kinds = {f.get("exc", f["kind"]) for f in plan["world"]["faults"]}
        own = {"MemoryError": "MemoryError", "late": "MemoryError", "LinAlgError": "LinAlgError", "ValueError": "ValueError", "OSError": "OSError", "InjectedFault": "InjectedFault"}
        # spreg itself translates a singular system met inside a computation
        translated = any(f.get("exc") == "LinAlgError" for f in plan["world"]["faults"])
        if kinds and kinds <= set(own) and not translated:
            names = {type(e).__name__ for e in chain(P.out.error)} | {b.__name__ for e in chain(P.out.error) for b in type(e).__mro__}
            texts = " ".join(str(e) for e in chain(P.out.error))
            if not ({own[k] for k in kinds} & names) and "simulated" not in texts:
                return bad("masked", "the worker's own error is lost: raised %s: %s" % (P.out.etype, P.out.emsg[:120]))
    # recovery: the next fit is undisturbed
    R = _par.Parallel(spec, dict(plan["world"], faults=[], memory="inline"))
    if R.hung:
        return bad("recovery", "the next fit hangs: " + R.hung)
    d = same(ref, R.out, case.tol)
    if d:
        return bad("recovery", "the fit after the failure differs: " + d)
    _, again = fit(spec)
    d = same(ref, again, case.tol)
    if d:
        return bad("recovery", "the serial fit after the failure differs: " + d)
    probes["recovered"] = 1
    return ok(**common)


def shrink(plan, res):
    yield from _par.shrink_world(plan)
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
