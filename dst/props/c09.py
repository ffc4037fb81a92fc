"""C09: lazy results are the same in any reading order, any number of times."""
import contextlib
import io
import warnings

import spreg

from .. import work, sched, snap as S
from ..core import Rng, StepLimit
from ..session import fit, isolated, value_snap, pick_steps, survey, faulted, h, ok, violation, where, shrink_spec

COUNTS = {"quick": 1200, "thorough": 20000}
RULE = ("one run = a fitted model and a seeded sequence of reads and diagnostics on it, possibly with one read interrupted, by two or three threads stepped bytecode by bytecode, "
        "or with the fit's own diagnostics switched on; each answer must equal the one a fresh model gives to the same question asked first; non-trivial when at least three "
        "different questions were answered; distinct by (estimator, options, operations, fault or schedule)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas"]
STUB = ["which thread runs next", "when an interruption strikes"]
ASSUME = ["a question that cannot be answered on a fresh model (raises) must raise the same type of error later",
          "threads are switched between bytecodes of spreg code"]
MUST_HIT = ["order", "interrupted", "threads", "toggle", "submodel", "diagnostic", "base_class", "dict_first_created_by_reader"]

DIAG = ["f_stat", "t_stat", "r2", "ar2", "se_betas", "log_likelihood", "akaike", "schwarz", "condition_index", "jarque_bera", "breusch_pagan", "white", "koenker_bassett", "vif",
        "pr2_aspatial", "pr2_spatial", "dwh", "LMtests", "MoranRes", "AKtest", "t_stat_z", "constant_check", "Chow"]
POOL = [e for e in work.MODELS if not work.EST[e].get("slow")] + ["OLS_Endog_Regimes", "GM_Lag_Endog_Regimes"]
BASES = [e for e in work.MODELS if work.EST[e].get("model")]
#: models whose own cache does not exist until somebody reads from it
NOCACHE = ["GM_Error_Regimes", "GM_Endog_Error_Regimes", "GM_Combo_Regimes", "GM_Error_Het_Regimes", "GM_Endog_Error_Het_Regimes", "GM_Combo_Het_Regimes",
           "GM_Error_Hom_Regimes", "GM_Endog_Error_Hom_Regimes", "GM_Combo_Hom_Regimes"]
LAZY = ["OLS", "OLS_Regimes", "TSLS", "TSLS_Regimes", "GM_Lag", "GM_Lag_Regimes", "ML_Lag", "ML_Error", "ML_Lag_Regimes", "ML_Error_Regimes"]


def gen(seed, i, tier):
    rng = Rng(seed, "C09", tier, i)
    j = i // 4
    hot = False
    est = POOL[j // 2 % len(POOL)] if j % 2 == 0 else rng.pick(BASES + LAZY)
    mode = rng.weighted([("order", 4), ("interrupt", 3), ("threads", 3 if not work.EST[est].get("slow") else 0), ("toggle", 2 if "fn" not in work.EST[est] else 0)])
    hot = mode == "threads" and rng.flip(0.35)
    if hot:
        est = rng.pick(NOCACHE)
    force = {"cores": False} if "cores" in work.EST[est]["opts"] else {}
    if "regime_err_sep" in work.EST[est]["opts"] and (hot or mode == "toggle" or rng.flip(0.6)):
        force["regime_err_sep"] = True
        if "regime_lag_sep" in work.EST[est]["opts"]:
            force["regime_lag_sep"] = rng.flip(0.7)
    spec = work.sample(rng, est, plain=0.5, **force)
    if work.EST[est]["kind"] == "endog":
        mode = "order"
    nt = 2 if mode != "threads" else rng.pick([2, 2, 3])
    return {"spec": spec, "mode": mode, "ops": rng.randrange(1 << 30), "nops": rng.randint(3, 10), "hot": hot, "threads": nt,
            "fault": {"exc": rng.pick(["KeyboardInterrupt", "MemoryError"]), "at": rng.weighted([(1, 1), (2, 2), (3, 3), (4, 2), (5, 2), (6, 1), (8, 1), (12, 1), (30, 1)]), "op": rng.randrange(4)},
            "policy": {"kind": rng.pick(["uniform", "long", "pct"]), "q": rng.pick([2, 3, 6, 15, 60]), "seed": rng.randrange(1 << 30)}}


def subs(m):
    mu = vars(m).get("multi")
    return list(mu) if isinstance(mu, dict) else []


def draw_ops(rng, m, n, w, spdc=False, hot=False, eager=False):
    ops = []
    keys = subs(m)
    props = S.properties(type(m))
    diags = list(DIAG)
    reads = [["read", None, p] for p in props]
    for r, k in enumerate(keys):
        reads += [["read", r, p] for p in S.properties(type(m.multi[k]))]
    for _ in range(n):
        kind = rng.weighted([("read", 12 if reads and eager else 6 if reads else 0), ("diag", 0 if spdc or hot else 4), ("all", 1)])
        if kind == "read":
            ops.append(rng.pick(reads))
        elif kind == "diag":
            d = rng.pick(diags)
            ops.append(["diag", rng.randrange(len(keys)) if keys and rng.flip(0.4) else None, d])
        else:
            ops.append(["all", None, None])
    if ops and rng.flip(0.4):
        ops.append(ops[0])
    return ops


def apply(m, w, op):
    """The answer to one question, as a value."""
    kind, sub, name = op
    t = m if sub is None else m.multi[subs(m)[sub]]
    if kind == "all":
        return None
    if kind == "read":
        return getattr(t, name)
    if name == "LMtests":
        return {k: v for k, v in vars(spreg.LMtests(t, w)).items() if not k.startswith("_")}
    if name == "MoranRes":
        return {k: v for k, v in vars(spreg.MoranRes(t, w, z=True)).items() if not k.startswith("_")}
    if name == "AKtest":
        return {k: v for k, v in vars(spreg.AKtest(t, w, case="nosp")).items() if not k.startswith("_")}
    if name == "Chow":
        return {k: v for k, v in vars(spreg.regimes.Chow(t)).items() if not k.startswith("_")}
    if name == "t_stat_z":
        return spreg.t_stat(t, z_stat=True)
    if name == "constant_check":
        return spreg.diagnostics.constant_check(t.x)
    return getattr(spreg, name)(t)


def answer(m, w, op):
    """apply() with errors as answers."""
    try:
        v = apply(m, w, op)
    except Exception as e:
        return ("raises", type(e).__name__)
    if op[0] == "all":
        return value_snap(m)
    return v


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f()


def asnap(op, v):
    if op[0] == "all" or isinstance(v, tuple) and v[:1] == ("raises",):
        return v
    return quiet(lambda: value_snap(v))


TOL = S.Tol(1e-9, 1e-12)
TOGGLES = ("spat_diag", "nonspat_diag", "moran", "white_test", "vif", "vm", "latex")


def run(plan):
    spec, mode = plan["spec"], plan["mode"]
    est = spec["est"]
    rng = Rng("C09ops", plan["ops"])
    case, out = fit(spec)
    base = dict(steps=0, probes={}, faults={}, sample={"est": est, "mode": mode})
    if not out.ok or not hasattr(out.value, "__dict__"):
        return ok(nontrivial=False, sig=h([est, "unfit", out.etype]), log_hash=h(out.etype), **base)
    w = case.args.get("w")
    # the model under test is a second, untouched fit
    def fresh():
        return quiet(work.build(spec).call)
    m0 = fresh()
    ops = plan.get("oplist") or draw_ops(rng, m0, plan["nops"], w, est == "spDcache", plan.get("hot"), mode == "interrupt")
    refs = {}
    for op in ops + [["all", None, None]]:
        k = h(op)
        if k not in refs:
            refs[k] = isolated(lambda: asnap(op, quiet(lambda: answer(m0, w, op))))
    facts = {"est": est, "mode": mode}
    probes = {"order": int(mode == "order"), "toggle": int(mode == "toggle"), "submodel": int(any(o[1] is not None for o in ops)), "diagnostic": int(any(o[0] == "diag" for o in ops)),
              "base_class": int(est in BASES), "interrupted": 0, "threads": 0, "dict_first_created_by_reader": int("_cache" not in vars(m0))}
    log = {"ops": ops}
    steps, faults = len(ops), {}
    nq = len({h(o) for o in ops})
    extra = None

    def result(bad=None):
        common = dict(sig=h([est, {k: v for k, v in spec["o"].items() if v}, ops, mode, extra]), nontrivial=nq >= 3, log_hash=h([ops, extra]), steps=steps, probes=probes, faults=faults,
                      sample={"est": est, "mode": mode, "ops": ops[:8]})
        if bad is None:
            return ok(**common)
        r = violation("C09:%s:%s" % (mode, bad[0]), "%s (%s): %s" % (est, mode, bad[1]), facts=dict(facts, attr=bad[0]), log=log, **common)
        r["oplist"] = ops
        if extra is not None and mode == "threads":
            r["segments"] = extra
        return r

    def compare(op, got, when):
        d = S.diff(refs[h(op)], got, TOL, "answer")
        if d:
            what = "%s%s" % (op[2] or "the whole model", "" if op[1] is None else " of regime model %d" % op[1])
            return (op[2] or where(d), "%s %s is not what a fresh model answers: %s" % (what, when, d))

    if mode == "toggle":
        o1, o2 = dict(spec["o"]), dict(spec["o"])
        on = [k for k in TOGGLES if k in work.EST[est]["opts"]]
        on = [k for k in on if rng.flip(0.6)] or on
        for k in on:
            o1[k], o2[k] = False, True
        off = work.build(dict(spec, o=o1))
        c2 = work.build(dict(spec, o=o2))
        try:
            m0, m2 = quiet(off.call), quiet(c2.call)
        except Exception:
            return result()
        extra = on
        log["toggled"] = on
        A = S.snap_model(m0)
        Bm = S.snap_model(m2)
        for (label, pa, pb) in [("", A[2], Bm[2])] + [(" of regime %s" % ra, xa, xb) for (ra, xa), (_, xb) in zip(A[3], Bm[3])]:
            da, db = dict(pa), dict(pb)
            for p in da:
                if p not in db:
                    continue
                if isinstance(da[p], tuple) and da[p] and da[p][0] == "raises":
                    # some attributes exist only once diagnostics are asked for
                    continue
                d = S.diff(da[p], db[p], case.tol, p)
                if d:
                    return result((p, "%s%s depends on whether %s was asked for: %s" % (p, label, ", ".join(extra), d)))
        return result()

    m = m0
    if mode == "threads":
        op_ = sched.Scheduler(plan["policy"] if "segments" not in plan else {"kind": "replay", "segments": plan["segments"]}, opcodes=True, max_steps=20_000_000)
        nt = plan["threads"]
        lists = [[o for o in ops[t::1] if o[0] != "all"] or [o for o in ops if o[0] != "all"] for t in range(nt)]
        lists = [l[t % max(1, len(l)):] + l[:t % max(1, len(l))] for t, l in enumerate(lists)]
        if plan.get("hot") or rng.flip(0.5):
            lists = [lists[0]] * nt
        ths = [op_.spawn(lambda l=l: [answer(m, w, o) for o in l]) for l in lists]
        old = warnings.filters[:]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                op_.run()
        except StepLimit as e:
            return result(("stuck", str(e)))
        extra = op_.segments
        steps = op_.steps
        faults["preemption"] = op_.switches
        probes["threads"] = int(op_.switches > 2)
        for t, l in zip(ths, lists):
            if t.error is not None:
                return result(("error", "a reading thread died: %s: %s" % (type(t.error).__name__, t.error)))
            for o, v in zip(l, t.result):
                bad = compare(o, asnap(o, v), "read by several threads at once")
                if bad:
                    return result(bad)
    else:
        seen = []
        if mode == "interrupt":
            # every step of one first read, struck in turn, each on its own copy of the fresh model
            reads = [o for o in ops if o[0] == "read"]
            for o in reads[:2]:
                rec = isolated(lambda: survey(lambda: apply(m, w, o))[1])
                ats = list(range(1, len(rec) + 1))
                if len(ats) > 24:
                    ats = pick_steps(Rng("sweep", plan["ops"], o), rec, 24)

                def struck(at):
                    lf = faulted(lambda: apply(m, w, o), at, plan["fault"]["exc"])[1]
                    return bool(lf.fired), asnap(o, quiet(lambda: answer(m, w, o)))
                for at in ats:
                    fired, got = isolated(lambda: struck(at))
                    if fired:
                        faults[plan["fault"]["exc"]] = faults.get(plan["fault"]["exc"], 0) + 1
                        probes["interrupted"] = 1
                    bad = compare(o, got, "read again after it was interrupted at step %d" % at)
                    if bad:
                        extra = [["sweep", o, at]]
                        return result(bad)
        for n, o in enumerate(ops):
            r9 = Rng("strike", plan["ops"], o)
            if mode == "interrupt" and o[0] != "all" and r9.flip(0.7):
                # struck at any of the steps this very read takes from here
                rec = isolated(lambda: survey(lambda: apply(m, w, o))[1])
                for at in pick_steps(r9, rec, r9.pick([1, 1, 2])):
                    fo, lf = faulted(lambda: apply(m, w, o), at, plan["fault"]["exc"])
                    if lf.fired:
                        faults[plan["fault"]["exc"]] = faults.get(plan["fault"]["exc"], 0) + 1
                        probes["interrupted"] = 1
                        extra = (extra or []) + list(lf.fired)
                        seen.append("an interrupted %s" % o[2])
            got = asnap(o, quiet(lambda: answer(m, w, o)))
            bad = compare(o, got, "read after %s" % (", ".join(map(str, seen[-6:])) or "nothing"))
            if bad:
                return result(bad)
            seen.append(o[2] or "everything")
    fin = ["all", None, None]
    bad = compare(fin, quiet(lambda: answer(m, w, fin)), "after all the reads")
    return result(bad)


def shrink(plan, res):
    ops = plan.get("oplist") or res.get("oplist")
    if ops:
        if not plan.get("oplist"):
            yield dict(plan, oplist=ops)
        else:
            for j in range(len(ops)):
                if len(ops) > 1:
                    yield dict(plan, oplist=ops[:j] + ops[j + 1:])
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    if plan["mode"] == "threads" and res.get("segments"):
        segs = plan.get("segments")
        if segs is None:
            yield dict(plan, segments=res["segments"], oplist=ops)
        else:
            k = max(1, len(segs) // 2)
            while k >= 1:
                for j in range(0, len(segs), k):
                    rest = segs[:j] + segs[j + k:]
                    if rest and rest != segs:
                        yield dict(plan, segments=rest)
                if k == 1:
                    break
                k //= 2
