"""C06: interrupting a fit anywhere never yields a different answer."""
from .. import work
from ..core import Rng
from ..snap import Tol
from ..session import capture, survey, faulted, finish, pick_steps, guarded, same, h, ok, violation, shrink_spec

COUNTS = {"quick": 700, "thorough": 26000}
RULE = ("one run = one call whose fault-free result is known, struck by KeyboardInterrupt or MemoryError at seeded steps inside spreg; each strike must raise or give the "
        "fault-free result, and an undisturbed repeat on the same inputs must give it too; non-trivial when a strike landed; distinct by (call, options, struck sites)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas"]
STUB = ["arrival of asynchronous exceptions (injected at line events inside spreg)"]
ASSUME = ["exceptions arrive between lines of spreg code, not inside compiled library code"]
#: the same computation on the same data: anything beyond the last bits is another answer
EXACTLY = Tol(1e-11, 1e-13)
MUST_HIT = ["struck", "raised", "guarded_site"]


def gen(seed, i, tier):
    rng = Rng(seed, "C06", tier, i)
    est = work.ALL[i // 4 % len(work.ALL)]
    spec = work.sample(rng, est, plain=0.4)
    slow = work.EST[est].get("slow")
    return {"spec": spec, "strikes": 3 if slow else 6, "exc": rng.weighted([("KeyboardInterrupt", 1), ("MemoryError", 1)]), "seed": rng.randrange(1 << 30), "at": None}


def run(plan):
    spec, est, exc = plan["spec"], plan["spec"]["est"], plan["exc"]
    probes, faults, log, sites = {}, {}, [], []
    case = work.build(spec)
    o0, rec = survey(case.call)
    ref = capture(work.build(spec).call)
    common = lambda: dict(sig=h([est, exc, sites]), nontrivial=bool(sites), log_hash=h(log), steps=len(rec), probes=probes, faults=faults,
                          sample={"call": est, "exception": exc, "options": {k: v for k, v in spec["o"].items() if v}, "struck_at": [str(s) for s in sites]})

    def bad(cls, site, msg):
        r = violation("C06:%s:%s:%s" % (cls, site[0], site[1]), "%s: %s" % (est, msg), facts={"est": est, "site": "%s:%s" % site[:2], "exc": exc}, log=log, **common())
        return r
    ats = [plan["at"]] if plan["at"] else pick_steps(Rng("strike", plan["seed"]), rec, plan["strikes"], guarded)
    for at in ats:
        c = work.build(spec)
        o, lf = faulted(c.call, at, exc)
        log.append([at, lf.fired, o.brief()])
        if not lf.fired:
            continue
        site = lf.fired
        sites.append(site)
        faults[exc] = faults.get(exc, 0) + 1
        for k, v in (("struck", True), ("raised", not o.ok), ("guarded_site", guarded(site))):
            probes[k] = probes.get(k, 0) + int(v)
        at_s = "%s struck at %s:%s:%d" % ((exc,) + site)
        r = None
        if o.ok:
            if exc == "KeyboardInterrupt":
                r = bad("swallowed", site, "%s and was swallowed: the call returned" % at_s)
            else:
                d = same(ref, finish(o), EXACTLY)
                if d:
                    r = bad("degraded", site, "%s and the call returned a different answer: %s" % (at_s, d))
        elif exc == "KeyboardInterrupt" and o.etype != "KeyboardInterrupt":
            r = bad("replaced", site, "%s and was replaced by %s: %s" % (at_s, o.etype, o.emsg[:120]))
        elif exc == "MemoryError" and o.etype != "MemoryError":
            # another error is a report too, unless it is the one the call raises anyway
            causes, e = [], o.error
            while e is not None and len(causes) < 6:
                causes.append(type(e).__name__)
                e = e.__cause__ or e.__context__
            probes["translated"] = probes.get("translated", 0) + 1
            if "MemoryError" not in causes and ref.ok:
                r = bad("masked", site, "%s and surfaced as an unrelated %s: %s" % (at_s, o.etype, o.emsg[:120]))
        if r is None:
            again = capture(work.build(spec, c.args).call)
            d = same(ref, again, EXACTLY)
            if d:
                r = bad("after", site, "%s; repeating the call on the same inputs then gave a different answer: %s" % (at_s, d))
        if r is not None:
            r["at"] = at
            return r
    return ok(evals=len(ats), **common())


def shrink(plan, res):
    if res.get("at") and not plan["at"]:
        yield dict(plan, at=res["at"])
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s, at=None, strikes=12)
