"""C05: caller-owned inputs are never modified."""
from .. import work, snap as S
from ..core import Rng
from ..session import survey, faulted, pick_steps, guarded, inputs_snap, value_snap, h, ok, violation, where, shrink_spec

COUNTS = {"quick": 900, "thorough": 26000}
RULE = ("one run = one call on fresh caller-owned inputs, fault-free and then cut short by an exception at seeded steps inside spreg, with a deep comparison of "
        "every input after each; non-trivial when the call executed spreg code; distinct by (call, options, container types, struck sites)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas"]
STUB = ["arrival of asynchronous exceptions (injected at line events inside spreg)"]
ASSUME = ["logical content counts: lazily computed caches inside libpysal weights objects are not a modification", "exceptions arrive between lines of spreg code"]
MUST_HIT = ["struck", "completed", "regimes", "pandas"]


def gen(seed, i, tier):
    rng = Rng(seed, "C05", tier, i)
    est = work.ALL[i // 4 % len(work.ALL)]
    if rng.flip(0.15):
        # calls whose input is a fitted model
        est = rng.pick(["ols_diagnostics", "ols_diagnostics", "tsls_diagnostics", "probit_diagnostics", "panel_bsk", "panel_diagnostics", "spDcache"])
    spec = work.sample(rng, est, plain=0.4)
    slow = work.EST[est].get("slow")
    return {"spec": spec, "strikes": 2 if slow else 4, "exc": rng.weighted([("KeyboardInterrupt", 3), ("MemoryError", 2), ("LinAlgError", 1), ("ValueError", 2)]),
            "seed": rng.randrange(1 << 30), "at": None}


def inputs(case):
    s = inputs_snap(case.args)
    if "reg_in" in case.args:
        s["reg_in"] = value_snap(case.args["reg_in"])
    return s


def compare(before, case):
    after = inputs(case)
    for k in before:
        d = S.diff(before[k], after[k], S.EXACT, "argument %s" % k)
        if d:
            return d
    return None


def run(plan):
    spec, est = plan["spec"], plan["spec"]["est"]
    probes = {"pandas": int(spec["o"].get("_form") == "pd"), "regimes": int(bool(work.EST[est]["regimes"]))}
    faults = {}
    log = []
    case = work.build(spec)
    before = inputs(case)
    o, rec = survey(case.call)
    steps = len(rec)
    probes["completed"] = int(o.ok)
    facts = {"est": est}
    sites = []
    common = lambda: dict(sig=h([est, spec["o"], sites]), nontrivial=steps > 0, log_hash=h(log), steps=steps, probes=probes, faults=faults,
                          sample={"call": est, "options": {k: v for k, v in spec["o"].items() if v}, "struck_at": [str(s) for s in sites]})
    bad = lambda cls, d, msg: violation("C05:%s:%s:%s" % (cls, est, where(d)), "%s: %s: %s" % (est, msg, d), facts=dict(facts, where=where(d)), log=log, **common())
    d = compare(before, case)
    if d:
        return bad("call", d, "the call modified its input")
    if o.ok:
        value_snap(o.value)   # reads every on-demand attribute
        d = compare(before, case)
        if d:
            return bad("read", d, "reading the result modified an input of the call")
    ats = [plan["at"]] if plan["at"] else pick_steps(Rng("strike", plan["seed"]), rec, plan["strikes"], guarded)
    for at in ats:
        c2 = work.build(spec)
        before = inputs(c2)
        o2, lf = faulted(c2.call, at, plan["exc"])
        log.append([at, lf.fired, o2.brief()])
        if lf.fired:
            probes["struck"] = probes.get("struck", 0) + 1
            faults[plan["exc"]] = faults.get(plan["exc"], 0) + 1
            sites.append(lf.fired)
        d = compare(before, c2)
        if d:
            r = bad("cut", d, "cut short by %s at %s:%s:%d, the call left its input modified" % ((plan["exc"],) + (lf.fired or ("?", "?", 0))))
            r["at"] = at
            return r
    return ok(evals=1 + len(ats), **common())


def shrink(plan, res):
    if res.get("at") and not plan["at"]:
        yield dict(plan, at=res["at"])
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s, at=None, strikes=10 if plan["at"] or res.get("at") else plan["strikes"])
