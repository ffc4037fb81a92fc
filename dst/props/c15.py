"""C15: a missing or failing optional library changes no result."""
import re
import sys
import warnings

import numpy as np

import spreg
from spreg import skater_reg

from .. import work, remote, absent, snap as S
from ..core import Rng
from ..session import capture, isolated, same, Frozen, fit, h, ok, violation, where, shrink_spec

COUNTS = {"quick": 700, "thorough": 16000}
RULE = ("one run = one call made in a process that started without some of the optional libraries (import hook), or with them but failing from a seeded use on (distance function, progress bar, an import "
        "that starts to fail, optimiser entry points an older scipy lacks), compared with the same call where everything works: the same result, warnings and text, or an error; never other numbers; and after "
        "the fault a repeated call in the same process gives the fault-free result; non-trivial when the call with all libraries succeeded; distinct by (call, options, configuration, fault)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "scikit-learn", "statsmodels"]
STUB = ["the import system for the libraries that are made to be missing", "tqdm (not installed here: a stand-in with its interface)"]
ASSUME = ["distances computed by scikit-learn and by scipy may differ in the last digits: attribute data are continuous, so no two edges tie"]
MUST_HIT = ["skater", "endog", "no_sklearn", "nothing_optional", "progress_bar", "no_numba", "fails_in_use", "raised", "same", "recovered", "statsmodels", "other_models"]

CONFIGS = {"nothing_optional": "0-all,metadata", "no_sklearn": "77-sklearn,tqdm+", "no_numba": "1-numba,llvmlite,statsmodels", "full": "0-tqdm+"}
USE = ["distances", "distances", "bar", "bar_import", "solver", None]
SOLVED = ["ML_Lag", "ML_Error", "ML_Lag_Regimes", "ML_Error_Regimes", "BaseML_Lag", "BaseML_Error", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "ML_LagFE", "ML_ErrorFE", "ML_LagRE", "ML_ErrorRE",
          "ML_ErrorPooled", "SURerrorML", "GM_Error", "GM_Error_Het", "GM_Combo_Hom", "Probit", "GM_ErrorPooled", "GM_ErrorRE", "NSLX", "SURerrorGM"]
OTHER = [e for e in work.ALL if not work.EST[e].get("slow")]
ENDOG = ["OLS_Endog_Regimes", "TSLS_Endog_Regimes", "GM_Lag_Endog_Regimes"]


def warm():
    remote.warm(sorted(CONFIGS.values()))


reset = remote.reset


def gen(seed, i, tier):
    rng = Rng(seed, "C15", tier, i)
    group = rng.weighted([("skater", 5), ("endog", 1), ("solved", 3), ("other", 3)])
    conf = rng.weighted([("full", 4), ("no_sklearn", 3), ("nothing_optional", 3), ("no_numba", 1)]) if group in ("skater", "endog") else rng.pick(sorted(CONFIGS))
    plan = {"group": group, "conf": conf, "use": rng.pick(USE) if conf == "full" else None, "at": rng.weighted([(0, 3), (1, 3), (2, 2), (5, 2), (20, 1), (60, 1)]), "exc": rng.pick(["MemoryError", "ValueError", "RuntimeError", "TypeError", "KeyboardInterrupt", "ImportError", "AttributeError", "IndexError"])}
    if plan["use"]:
        # the fault that this group of calls can meet
        plan["use"] = {"solved": "solver", "other": "solver", "endog": "distances"}.get(group) or rng.pick(["distances", "distances", "bar", "bar", "bar_import"])
    if group == "skater":
        plan["sk"] = {"n": rng.pick([2, 3, 4]), "r": 6, "c": rng.pick([6, 7]), "k": rng.pick([1, 2, 3]), "seed": rng.randrange(1 << 30), "reg": rng.pick([None, None, "OLS", "GM_Lag", "sm", "TSLS"]), "quorum": rng.pick([3, 5, 8]),
                      "reduction": rng.pick(["sum", "sum", "mean", "max"]), "center": rng.pick(["mean", "mean", "median"]), "verbose": rng.pick([0, 0, 1, 2]), "trace": rng.flip(), "w": rng.pick(["rook", "queen"]),
                      "scale": rng.pick([1.0, 1.0, 1e4, 1e-3]), "shift": rng.pick([0.0, 0.0, 5.0]), "bad": rng.weighted([(None, 8), ("nan", 1), ("inf", 1), ("flat", 1), ("none", 1)]), "islands": rng.pick(["increase", "ignore"]), "island": rng.flip(0.1)}
        if plan["use"] in ("bar", "bar_import"):
            plan["sk"]["verbose"] = rng.pick([1, 2])
        elif plan["use"] == "distances":
            plan["sk"]["reg"] = rng.pick([None, None, "OLS"])
        if plan["use"]:
            plan["sk"]["bad"] = None
            plan["sk"]["island"] = False
        if conf in ("nothing_optional", "no_numba") and plan["sk"]["reg"] == "sm":
            plan["sk"]["reg"] = "OLS"
    else:
        est = rng.pick(ENDOG) if group == "endog" else rng.pick(SOLVED if group == "solved" else OTHER)
        force = {"cores": False} if "cores" in work.EST[est]["opts"] else {}
        plan["spec"] = work.sample(rng, est, plain=0.6, **force)
    return plan


def skater(sk):
    g = np.random.Generator(np.random.PCG64(sk["seed"]))
    n = sk["r"] * sk["c"]
    w = work.make_w(sk["w"], sk["r"], sk["c"], "b", None)
    if sk["island"]:
        # two disconnected parts
        half = sk["r"] // 2 * sk["c"]
        nb = {i: [j for j in v if (j < half) == (i < half)] for i, v in w.neighbors.items()}
        from libpysal.weights import W
        w = W(nb, id_order=list(range(n)), silence_warnings=True)
    x = g.normal(size=(n, sk["k"]))
    y = x.sum(axis=1, keepdims=True) * np.where(np.arange(n) < n // 2, 1.0, -1.0).reshape(-1, 1) + g.normal(size=(n, 1))
    data = (x + sk["shift"]) * sk["scale"]
    if sk["bad"] == "nan":
        data[3, 0] = np.nan
    elif sk["bad"] == "inf":
        data[3, 0] = np.inf
    elif sk["bad"] == "flat":
        data = data[:, 0]
    elif sk["bad"] == "none":
        data = None
    reg = None
    fam = "spreg"
    if sk["reg"] in ("OLS", "sm"):
        reg = {"reg": spreg.OLS, "y": y, "x": x}
        if sk["reg"] == "sm":
            import statsmodels.api as sm
            reg["reg"] = sm.OLS
            fam = "statsmodels"
    elif sk["reg"] == "GM_Lag":
        reg = {"reg": spreg.GM_Lag, "y": y, "x": x, "w": w}
    elif sk["reg"] == "TSLS":
        q = g.normal(size=(n, 2))
        reg = {"reg": spreg.TSLS, "y": y, "x": x, "yend": q[:, :1] + g.normal(size=(n, 1)), "q": q}
    red, cen = {"sum": np.sum, "mean": np.mean, "max": np.max}[sk["reduction"]], {"mean": np.mean, "median": np.median}[sk["center"]]

    def call():
        m = skater_reg.Skater_reg(reduction=red, center=cen).fit(sk["n"], w, data, reg, quorum=sk["quorum"], trace=sk["trace"], islands=sk["islands"], verbose=sk["verbose"], model_family=fam)
        lab = m.current_labels_
        out = {"labels": None if lab is None else np.asarray(lab), "forest": m.minimum_spanning_forest_.toarray()}
        # an edge may be stored from either end
        out["forest"] = out["forest"] + out["forest"].T
        if sk["trace"]:
            out["trace"] = [(np.asarray(a), np.array(sorted([float(b[0]), float(b[1])]) + [float(b[2])])) for a, b in m._trace]
        return out
    return call


def caller(plan):
    if plan["group"] == "skater":
        return skater(plan["sk"])
    return work.build(plan["spec"]).call


def outcome(plan):
    S.W_ORDER = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        call = caller(plan)
    try:
        o = Frozen(capture(call))
    except KeyboardInterrupt as e:
        from ..session import Outcome
        o = Outcome()
        o.ok, o.value, o.snap, o.error, o.etype, o.emsg, o.out, o.warns = False, None, None, None, "KeyboardInterrupt", str(e), "", []
        o = Frozen(o)
    # edges are printed from either end, scores with their last digits
    o.out = re.sub(r"deletion\(in_node.*?score=[^)]*\)+", "deletion()", "\n".join(x for x in o.out.splitlines() if not _timing(x)))
    return o


def _timing(line):
    return bool(re.search(r"took\s+\d+\.\d+", line)) or "score update" in line.lower()


class Use:
    """A library that is there but fails from its at-th use on."""

    def __init__(self, kind, at, exc):
        self.kind, self.at, self.n, self.hits = kind, at, 0, 0
        self.exc = getattr(__import__("builtins"), exc)("simulated failure of an optional library")

    def wrap(self, f):
        def g(*a, **k):
            self.n += 1
            if self.n > self.at:
                self.hits += 1
                raise self.exc
            return f(*a, **k)
        return g

    def __enter__(self):
        import scipy.optimize as so
        self.undo = []
        if self.kind == "distances":
            d = skater_reg.Skater_reg.__init__.__defaults__
            new = tuple(self.wrap(v) if callable(v) and "euclid" in getattr(v, "__name__", "") else v for v in d)
            skater_reg.Skater_reg.__init__.__defaults__ = new
            self.undo.append(lambda: setattr(skater_reg.Skater_reg.__init__, "__defaults__", d))
        elif self.kind == "bar":
            sys.modules["tqdm"].fail_at = self.at
            self.undo.append(lambda: setattr(sys.modules["tqdm"], "fail_at", None))
        elif self.kind == "bar_import":
            # the library disappears while the program runs
            old = sys.modules["tqdm"]
            sys.modules["tqdm"] = None
            self.undo.append(lambda: sys.modules.__setitem__("tqdm", old))
        elif self.kind == "solver":
            for mn, m in list(sys.modules.items()):
                if mn.startswith("spreg.") and m is not None:
                    for k in ("minimize_scalar", "minimize"):
                        f = getattr(m, k, None)
                        if callable(f):
                            setattr(m, k, self.wrap(f))
                            self.undo.append(lambda m=m, k=k, f=f: setattr(m, k, f))
        return self

    def __exit__(self, *a):
        for u in self.undo:
            u()


def elsewhere(plan):
    """Make the call in this (disposable) process, whose libraries differ."""
    hits = dict(absent.HITS)
    st = {"missing": {}, "raised": 0, "bar": 0}
    if plan["use"]:
        with Use(plan["use"], plan["at"], plan["exc"]) as u:
            o = outcome(plan)
        st["use"] = u.hits
        st["bar"] = getattr(sys.modules.get("tqdm"), "used", 0)
        return o, outcome(plan), st
    o = outcome(plan)
    st["missing"] = hits
    st["bar"] = getattr(sys.modules.get("tqdm"), "used", 0)
    return o, outcome(plan), st


def run(plan):
    group, conf = plan["group"], plan["conf"]
    name = "Skater_reg(%s)" % plan["sk"]["reg"] if group == "skater" else plan["spec"]["est"]
    S.W_ORDER = False
    ref = isolated(lambda: outcome(plan))
    got, again, st = remote.POOL[CONFIGS[conf]].ask("dst.props.c15", "elsewhere", plan)
    tol = S.Tol(*work.EST[plan["spec"]["est"]]["tol"]) if group != "skater" else S.Tol(1e-6, 1e-6 * plan["sk"]["scale"])
    probes = {k: 0 for k in MUST_HIT}
    for k, v in (("skater", group == "skater"), ("endog", group == "endog"), ("other_models", group in ("solved", "other")), (conf, conf in probes), ("fails_in_use", st.get("use")), ("progress_bar", st["bar"]), ("raised", not got.ok), ("same", got.ok),
                 ("recovered", plan["use"]), ("statsmodels", group == "skater" and plan["sk"]["reg"] == "sm")):
        if v:
            probes[k] = 1
    faults = {"not importable: " + k: v for k, v in st["missing"].items()}
    if st.get("use"):
        faults["fails in use: " + plan["use"]] = st["use"]
    if plan["use"] in ("bar", "bar_import") and st["bar"]:
        faults["fails in use: " + plan["use"]] = 1
    common = dict(sig=h([name, conf, plan["use"], plan["at"] if plan["use"] else 0, plan.get("sk") or {k: v for k, v in plan["spec"]["o"].items() if v}]), nontrivial=ref.ok, steps=1, probes=probes, faults=faults,
                  log_hash=h([ref.etype, got.etype, st]), sample={"call": name, "configuration": conf, "fails in use": plan["use"], "outcome": got.brief()[:60]})

    def bad(cls, msg):
        return violation("C15:%s:%s:%s" % (cls, group if group == "skater" else name, conf), "%s with %s%s: %s" % (
            name, CONFIGS[conf].partition("-")[2] + (" missing" if conf != "full" else ""), ", %s failing with %s from use %d on" % (plan["use"], plan["exc"], plan["at"]) if plan["use"] else "", msg), facts={"call": name}, log={}, **common)
    if got.ok or not ref.ok:
        if not ref.ok and not got.ok:
            pass
        else:
            d = same(ref, got, tol)
            if d is None and ref.out != got.out:
                d = "printed text: %r instead of %r" % (got.out[:150], ref.out[:150])
            if d is None and ref.warns != got.warns:
                d = "warnings: %s instead of %s" % (got.warns, ref.warns)
            if d:
                return bad("differs:" + where(d), d)
    elif conf != "full" or not (st.get("use") or plan["use"] in ("bar", "bar_import")):
        return bad("raises", "the call raised %s: %s" % (got.etype, got.emsg[:150]))
    if plan["use"]:
        if plan["use"] == "bar_import" and ref.ok and not got.ok:
            return bad("raises", "the call raised %s: %s" % (got.etype, got.emsg[:150]))
        if st.get("use") and ref.ok and not got.ok and got.etype != plan["exc"]:
            return bad("error", "the library's %s became %s: %s" % (plan["exc"], got.etype, got.emsg[:150]))
        d = same(ref, again, tol)
        if d:
            return bad("afterwards:" + where(d), "a repeated call after the fault: " + d)
    else:
        d = same(got, again, tol)
        if d:
            return bad("repeat:" + where(d), "the same call a second time: " + d)
    return ok(**common)


def shrink(plan, res):
    if plan["at"]:
        yield dict(plan, at=0)
    if plan["group"] == "skater":
        sk = plan["sk"]
        for k, v in (("reg", None), ("verbose", 0), ("reduction", "sum"), ("center", "mean"), ("scale", 1.0), ("shift", 0.0), ("trace", True), ("island", False), ("w", "rook"), ("n", 2), ("k", 1), ("c", 6), ("bad", None)):
            if sk[k] != v:
                yield dict(plan, sk=dict(sk, **{k: v}))
    else:
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
