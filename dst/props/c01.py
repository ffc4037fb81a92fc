"""C01: a separate-regimes fit on worker processes equals the serial fit."""
import copy

import numpy as np
import spreg
from libpysal.weights import w_subset

from .. import work, snap as S
from ..core import Rng
from ..session import fit, isolated, Frozen, finish, same, capture, h, ok, violation, where, shrink_spec
from . import _par

COUNTS = {"quick": 2400, "thorough": 30000}
RULE = ("one run = one separate-regimes specification (estimator x options x data) fitted serially and then with cores=True under a simulated "
        "process pool; non-trivial when the fit really submitted >=2 tasks to worker processes; distinct by (specification options, completion order, "
        "CPU count, memory model)")
REAL, STUB = _par.REAL, _par.STUB
ASSUME = ["numerical agreement is judged at 1e-6 (closed form) / 2e-4 (optimiser) relative", "OS-level process management is modelled, not run"]
MUST_HIT = ["parallel", "out_of_order", "standalone_checked", "mem_fork", "mem_pristine"]

def gen(seed, i, tier):
    rng = Rng(seed, "C01", tier, i)
    est = work.CORES[i // 4 % len(work.CORES)]
    spec = _par.gen_spec(rng, est)
    mem = rng.weighted([("inline", 8), ("fork", 2), ("pristine", 1)])
    return {"spec": spec, "world": {"seed": rng.randrange(1 << 30), "ncpu": rng.pick([1, 2, 3, 4, 16]), "memory": mem,
                                   "faults": [{"kind": "stall", "task": rng.randrange(spec["d"]["nreg"])}] if rng.flip(0.15) else []}}


STANDALONE = {
    "OLS_Regimes": ("OLS", ["robust", "sig2n_k"]), "TSLS_Regimes": ("TSLS", ["robust", "sig2n_k"]),
    "GM_Lag_Regimes": ("GM_Lag", ["robust", "sig2n_k", "w_lags", "lag_q"]),
    "GM_Error_Regimes": ("GM_Error", []), "GM_Endog_Error_Regimes": ("GM_Endog_Error", []), "GM_Combo_Regimes": ("GM_Combo", ["w_lags", "lag_q"]),
    "GM_Error_Het_Regimes": ("GM_Error_Het", ["max_iter", "epsilon", "step1c", "hard_bound"]),
    "GM_Endog_Error_Het_Regimes": ("GM_Endog_Error_Het", ["max_iter", "epsilon", "step1c", "hard_bound", "inv_method"]),
    "GM_Combo_Het_Regimes": ("GM_Combo_Het", ["max_iter", "epsilon", "step1c", "hard_bound", "inv_method", "w_lags", "lag_q"]),
    "GM_Error_Hom_Regimes": ("GM_Error_Hom", ["max_iter", "epsilon", "A1", "hard_bound"]),
    "GM_Endog_Error_Hom_Regimes": ("GM_Endog_Error_Hom", ["max_iter", "epsilon", "A1", "hard_bound"]),
    "GM_Combo_Hom_Regimes": ("GM_Combo_Hom", ["max_iter", "epsilon", "A1", "hard_bound", "w_lags", "lag_q"]),
    "ML_Lag_Regimes": ("ML_Lag", ["method", "epsilon"]), "ML_Error_Regimes": ("ML_Error", ["method", "epsilon"]),
}


def standalone(spec, model, probes):
    """Reference model: the single-equation estimator on each regime's own rows."""
    est, o = spec["est"], spec["o"]
    alias = est.replace("_kw_regimes", "_Regimes")
    if o.get("slx_lags") or o.get("robust") in ("hac", "ogmm") or alias not in STANDALONE:
        return None
    multi = getattr(model, "multi", None)
    if not isinstance(multi, dict) or not multi:
        return None
    cls, keep = STANDALONE[alias]
    base = copy.deepcopy(spec)
    base["o"].update(_form="np", _names=False)
    a = work.build(base).args
    regs = np.array(a["regimes"])
    tol = S.Tol(1e-5, 1e-8) if work.EST[est]["tol"] != work.OPT else S.Tol(2e-3, 1e-5)
    labels = sorted(set(regs.tolist()))
    if list(multi) != labels:
        return "regimes of the model are %r, of the data %r" % (list(multi), labels)
    k = 0
    for r in labels:
        ids = np.where(regs == r)[0]
        kw = {p: o[p] for p in keep if p in o}
        for v in ("y", "x", "yend", "q"):
            if v in a:
                kw[v] = a[v][ids]
        if alias not in ("OLS_Regimes", "TSLS_Regimes"):
            w = a["w"]
            wr = w_subset(w, [w.id_order[j] for j in ids], silence_warnings=True)
            wr.transform = w.transform
            kw["w"] = wr
        ref = capture(lambda: getattr(spreg, cls)(**kw), snapshot=False)
        if not ref.ok:
            return None
        m, s = ref.value, multi[r]
        probes["standalone_checked"] = probes.get("standalone_checked", 0) + 1
        for name in ("betas", "vm", "u", "predy"):
            try:
                want = np.asarray(getattr(m, name))
            except Exception:
                continue
            d = S._numdiff(want, np.asarray(getattr(s, name)), tol, "regime %r .%s vs %s on that regime alone" % (r, name, cls))
            if d:
                return d
        for name in ("u", "predy"):
            if hasattr(model, name):
                d = S._numdiff(np.asarray(getattr(s, name)), np.asarray(getattr(model, name))[ids], tol, "rows of regime %r in model.%s" % (r, name))
                if d:
                    return d
        kr = s.betas.shape[0]
        d = S._numdiff(np.asarray(s.betas), np.asarray(model.betas)[k:k + kr], tol, "block of regime %r in model.betas" % (r,))
        if d:
            return d
        k += kr
    return None


def run(plan):
    spec = plan["spec"]
    probes = {}
    # the serial reference runs in a copy of this process, so that nothing it leaves behind helps the workers
    ser = isolated(lambda: Frozen(fit(spec)[1]))
    tol = S.Tol(*work.EST[spec["est"]]["tol"])
    P = _par.Parallel(spec, plan["world"])
    w, par, hung = P.world, P.out, P.hung
    parallel = w.ntask >= 2
    probes["parallel"] = int(parallel)
    probes["out_of_order"] = int(w.order != sorted(w.order))
    probes["mem_" + w.memory] = int(parallel)
    probes["serial_raised"] = int(not ser.ok)
    opts = _par.opts(spec)
    common = dict(sig=h([spec["est"], opts, spec["d"].get("nreg"), w.order, w.ncpu, w.memory]), nontrivial=parallel, log_hash=h(w.log), simtime=w.now,
                  steps=w.seq, probes=probes, faults=w.fired,
                  sample={"est": spec["est"], "options": opts, "completion_order": w.order, "ncpu": w.ncpu, "memory": w.memory})
    facts = {"est": spec["est"]}
    if hung:
        return violation("C01:hang:" + spec["est"], "%s with cores=True: %s" % (spec["est"], hung), facts=facts, log=w.log, **common)
    d = same(ser, finish(par), tol)
    if d:
        return violation("C01:differs:%s:%s" % (spec["est"], where(d)), "%s: parallel fit differs from serial fit: %s" % (spec["est"], d), facts=facts, log=w.log, **common)
    if par.ok:
        d = standalone(spec, par.value, probes)
        if d:
            return violation("C01:regime:%s" % spec["est"], "%s: %s" % (spec["est"], d), facts=facts, log=w.log, **common)
    return ok(**common)


def shrink(plan, res):
    yield from _par.shrink_world(plan)
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
