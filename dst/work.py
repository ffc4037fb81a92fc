"""The workload catalogue: every public estimator of spreg (and the public
helpers a session uses around them), with the options a user can set.

A *spec* is a JSON-able dict {"est", "d" (data recipe), "o" (options)}.
`sample(rng, ...)` draws one; `build(spec)` makes fresh user-owned inputs and
a zero-argument callable that performs the fit on exactly those inputs.
"""
import copy
import warnings

import numpy as np
import pandas as pd
import libpysal
from libpysal import weights as LW

import spreg
from spreg import skater_reg, spsearch  # noqa: F401

from .snap import Tol

INF = np.inf

# ----------------------------------------------------------------------- data


def make_w(kind, r, c, transform, coords):
    if kind == "rook":
        w = LW.lat2W(r, c, rook=True)
    elif kind == "queen":
        w = LW.lat2W(r, c, rook=False)
    elif kind == "knn":
        w = LW.KNN.from_array(coords, k=4)
    elif kind == "rookstr":
        b = LW.lat2W(r, c, rook=True)
        nb = {"a%d" % i: ["a%d" % j for j in b.neighbors[i]] for i in b.id_order}
        w = LW.W(nb, id_order=["a%d" % i for i in range(r * c)], silence_warnings=True)
    else:
        raise ValueError(kind)
    w.transform = transform
    return w


class Data:
    """Deterministic data set for a recipe {seed, r, c, k, ke, nreg, reg, w, wt}."""

    def __init__(self, d):
        self.d = d
        r, c = d["r"], d["c"]
        n = r * c
        g = np.random.Generator(np.random.PCG64(d["seed"]))
        self.n = n
        ij = np.array([(i, j) for i in range(r) for j in range(c)], float)
        self.coords = ij + g.uniform(-0.2, 0.2, (n, 2))
        self.w = make_w(d.get("w", "rook"), r, c, d.get("wt", "r"), self.coords)
        W = make_w("rook", r, c, "r", self.coords).sparse.toarray()
        k, ke = d.get("k", 2), d.get("ke", 1)
        self.x = g.normal(size=(n, k)) * np.linspace(1, 2, k) + 1.0
        self.q = g.normal(size=(n, ke + d.get("xq", 1)))
        e = g.normal(size=(n, 1))
        self.yend = self.q[:, :ke] * 0.9 + 0.5 * e + g.normal(size=(n, ke))
        nreg = d.get("nreg", 2)
        self.ridx = (np.arange(n) % c) * nreg // c
        if d.get("scatter"):
            # a few observations change regime, so that regimes are not in row order
            for i in g.permutation(n)[: n // 12]:
                self.ridx[i] = (self.ridx[i] + 1) % nreg
        lab = {"str": ["north", "south", "east", "west", "mid"], "int": [3, 1, 2, 7, 5], "bool": [0, 1, 2, 3, 4]}[d.get("reg", "str")]
        self.regimes = [lab[i] for i in self.ridx]
        for col, how in d.get("cst", []):
            # regressors that are constant everywhere or within one regime
            m = np.ones(n, bool) if how == "all" else self.ridx == how
            self.x[m, col] = 1.0 if how == "all" else 0.0
        beta = g.uniform(0.5, 1.5, (k, 1))
        rho, lam = d.get("rho", 0.35), d.get("lam", 0.3)
        eff = (self.ridx.reshape(-1, 1) * 0.6) * self.x[:, :1] if nreg > 1 else 0
        u = np.linalg.solve(np.eye(n) - lam * W, e * (0.7 + 0.3 * self.ridx.reshape(-1, 1)))
        self.y = np.linalg.solve(np.eye(n) - rho * W, 1.0 + self.x @ beta + eff + 0.5 * self.yend[:, :1] + u)
        self.yb = (self.y > np.median(self.y)).astype(float)
        self.W = W
        self.g = g


def gwk(data):
    return LW.Kernel(data.coords, k=5, fixed=False, function="triangular", diagonal=True)


def panel_data(d):
    """y (n*t,1) and x (n*t,k) in long form (all units of period 1, then 2, ...)."""
    dat = Data(dict(d, nreg=1))
    n, t, k = dat.n, d.get("t", 3), d.get("k", 2)
    g = dat.g
    mu = g.normal(size=(n, 1))
    xs, ys = [], []
    A = np.linalg.inv(np.eye(n) - 0.3 * dat.W)
    b = g.uniform(0.5, 1.5, (k, 1))
    for _ in range(t):
        x = g.normal(size=(n, k)) + 0.5 * mu
        xs.append(x)
        ys.append(A @ (1 + x @ b + mu + g.normal(size=(n, 1))))
    return dat, np.vstack(ys), np.vstack(xs)


def sur_data(d):
    dat = Data(dict(d, nreg=d.get("nreg", 2)))
    n, m = dat.n, d.get("neq", 2)
    g = dat.g
    A = np.linalg.inv(np.eye(n) - 0.3 * dat.W)
    E = g.normal(size=(n, m)) @ np.linalg.cholesky(np.full((m, m), 0.4) + 0.6 * np.eye(m)).T
    y, X, Z, Q = {}, {}, {}, {}
    for i in range(m):
        k = d.get("k", 2) + (i if d.get("uneven") else 0)
        x = g.normal(size=(n, k)) + 0.5
        q = g.normal(size=(n, 2))
        z = q[:, :1] + 0.4 * E[:, i:i + 1] + 0.5 * g.normal(size=(n, 1))
        y[i] = A @ (1.0 + x @ g.uniform(0.5, 1.5, (k, 1)) + 0.4 * z + E[:, i:i + 1])
        X[i] = np.hstack((np.ones((n, 1)), x))
        Z[i], Q[i] = z, q
    return dat, y, X, Z, Q


# ---------------------------------------------------------------------- table

B = [False, True]
SLXV = "SLXV"  # special: 'All' or a boolean mask over x
NM = "names"

#: option -> choices, per estimator.  The first entries are the plain values.
COMMON = {"vm": B, "latex": B}


def _e(cls, args, opts, **kw):
    e = {"cls": cls, "args": args, "opts": dict(COMMON, **opts), "regimes": "regimes" in args, "tol": (1e-6, 1e-9), "kind": "xs"}
    e.update(kw)
    return e


OPT = (2e-4, 1e-6)   # results that come out of a numerical optimiser
REG = {"constant_regi": ["many", "one"], "cols2regi": ["all", "MASK"], "regime_err_sep": B}
REGL = dict(REG, regime_lag_sep=B)
SLX = {"slx_lags": [0, 1, 2], "slx_vars": [SLXV]}
HET = {"max_iter": [1, 2, 4], "epsilon": [1e-5, 1e-3], "step1c": B}
HOM = {"max_iter": [1, 2, 4], "epsilon": [1e-5, 1e-3], "A1": ["hom_sc", "hom", "het"]}
INV = {"inv_method": ["power_exp", "true_inv"]}
LAGQ = {"w_lags": [1, 2], "lag_q": [True, False]}
ROB = {"robust": [None, "white", "hac"]}

EST = {
    "OLS": _e("OLS", "y x w", dict(SLX, **ROB, sig2n_k=B, nonspat_diag=[True, False], spat_diag=B, moran=B, white_test=B, vif=B)),
    "OLS_Regimes": _e("OLS_Regimes", "y x regimes w", dict(SLX, **REG, **ROB, sig2n_k=B, nonspat_diag=[True, False], spat_diag=B, moran=B, white_test=B, cores=[False])),
    "OLS_kw_regimes": _e("OLS", "y x regimes w", dict(SLX, **REG, robust=[None, "white"], sig2n_k=B, spat_diag=B, nonspat_diag=[True, False], moran=B, white_test=B, cores=[False])),
    "TSLS_kw_regimes": _e("TSLS", "y x yend q regimes w", dict(SLX, **REG, robust=[None, "white", "ogmm"], sig2n_k=B, spat_diag=B, cores=[False])),
    "GM_Lag_kw_regimes": _e("GM_Lag", "y x regimes yend? q? w", dict(SLX, **LAGQ, **REGL, robust=[None, "white"], sig2n_k=B, spat_diag=B, spat_impacts=["simple", "full", None], hard_bound=B, cores=[False])),
    "ML_Lag_kw_regimes": _e("ML_Lag", "y x regimes w", dict(SLX, constant_regi=["many", "one"], cols2regi=["all", "MASK"], regime_lag_sep=B, method=["full", "ord", "LU"], spat_impacts=["simple", "full", None], spat_diag=B, epsilon=[1e-7, 1e-5, 1e-6], cores=[False]), tol=OPT),
    "ML_Error_kw_regimes": _e("ML_Error", "y x regimes w", dict(SLX, constant_regi=["many", "one"], cols2regi=["all", "MASK"], regime_err_sep=B, method=["full", "ord", "LU"], epsilon=[1e-7, 1e-5, 1e-6], cores=[False]), tol=OPT),
    "TSLS": _e("TSLS", "y x yend q w", dict(SLX, robust=[None, "white", "hac", "ogmm"], sig2n_k=B, spat_diag=B, nonspat_diag=[True, False])),
    "TSLS_Regimes": _e("TSLS_Regimes", "y x yend q regimes w", dict(SLX, **REG, robust=[None, "white", "hac", "ogmm"], sig2n_k=B, spat_diag=B, cores=[False])),
    "GM_Lag": _e("GM_Lag", "y x yend? q? w", dict(SLX, **LAGQ, **ROB, sig2n_k=B, spat_diag=B, spat_impacts=["simple", "full", "power", "all", None, ["simple", "full"]], hard_bound=B)),
    "GM_Lag_Regimes": _e("GM_Lag_Regimes", "y x regimes yend? q? w", dict(SLX, **LAGQ, **REGL, **ROB, sig2n_k=B, spat_diag=B, spat_impacts=["simple", "full", "all", None], hard_bound=B, cores=[False])),
    "GM_Error": _e("GM_Error", "y x w", dict(SLX, hard_bound=B), tol=OPT),
    "GM_Endog_Error": _e("GM_Endog_Error", "y x yend q w", dict(SLX, hard_bound=B), tol=OPT),
    "GM_Combo": _e("GM_Combo", "y x yend? q? w", dict(SLX, **LAGQ, hard_bound=B), tol=OPT),
    "GMM_Error": _e("GMM_Error", "y x w yend? q?", dict(SLX, hard_bound=B, estimator=["het", "hom", "kp98"], add_wy=B, spat_diag=B), tol=OPT),
    "GM_Error_Het": _e("GM_Error_Het", "y x w", dict(SLX, **HET, hard_bound=B), tol=OPT),
    "GM_Endog_Error_Het": _e("GM_Endog_Error_Het", "y x yend q w", dict(SLX, hard_bound=B, **HET, **INV), tol=OPT),
    "GM_Combo_Het": _e("GM_Combo_Het", "y x yend? q? w", dict(SLX, hard_bound=B, **HET, **INV, **LAGQ), tol=OPT),
    "GM_Error_Hom": _e("GM_Error_Hom", "y x w", dict(SLX, **HOM, hard_bound=B), tol=OPT),
    "GM_Endog_Error_Hom": _e("GM_Endog_Error_Hom", "y x yend q w", dict(SLX, hard_bound=B, **HOM), tol=OPT),
    "GM_Combo_Hom": _e("GM_Combo_Hom", "y x yend? q? w", dict(SLX, hard_bound=B, **HOM, **LAGQ), tol=OPT),
    "GM_Error_Regimes": _e("GM_Error_Regimes", "y x regimes w", dict(SLX, **REG, cores=[False]), tol=OPT),
    "GM_Endog_Error_Regimes": _e("GM_Endog_Error_Regimes", "y x yend q regimes w", dict(REG, slx_lags=[0, 1], cores=[False]), tol=OPT),
    "GM_Combo_Regimes": _e("GM_Combo_Regimes", "y x regimes yend? q? w", dict(REGL, **LAGQ, slx_lags=[0, 1], cores=[False]), tol=OPT),
    "GM_Error_Het_Regimes": _e("GM_Error_Het_Regimes", "y x regimes w", dict(SLX, **REG, **HET, hard_bound=B, cores=[False]), tol=OPT),
    "GM_Endog_Error_Het_Regimes": _e("GM_Endog_Error_Het_Regimes", "y x yend q regimes w", dict(REG, **HET, **INV, slx_lags=[0, 1], hard_bound=B, cores=[False]), tol=OPT),
    "GM_Combo_Het_Regimes": _e("GM_Combo_Het_Regimes", "y x regimes yend? q? w", dict(REGL, **HET, **INV, **LAGQ, slx_lags=[0, 1], hard_bound=B, cores=[False]), tol=OPT),
    "GM_Error_Hom_Regimes": _e("GM_Error_Hom_Regimes", "y x regimes w", dict(SLX, **REG, **HOM, hard_bound=B, cores=[False]), tol=OPT),
    "GM_Endog_Error_Hom_Regimes": _e("GM_Endog_Error_Hom_Regimes", "y x yend q regimes w", dict(REG, **HOM, slx_lags=[0, 1], hard_bound=B, cores=[False]), tol=OPT),
    "GM_Combo_Hom_Regimes": _e("GM_Combo_Hom_Regimes", "y x regimes yend? q? w", dict(REGL, **HOM, **LAGQ, slx_lags=[0, 1], hard_bound=B, cores=[False]), tol=OPT),
    "GMM_Error_Regimes": _e("GMM_Error_Regimes", "y x regimes w yend? q?", dict(REG, estimator=["het", "hom", "kp98"], add_wy=B, slx_lags=[0, 1], cores=[False]), tol=OPT),
    "ML_Lag": _e("ML_Lag", "y x w", dict(SLX, method=["full", "ord", "LU"], spat_impacts=["simple", "full", "power", "all", None], spat_diag=B, epsilon=[1e-7, 1e-5, 1e-6]), tol=OPT),
    "ML_Lag_Regimes": _e("ML_Lag_Regimes", "y x regimes w", dict(SLX, constant_regi=["many", "one"], cols2regi=["all", "MASK"], regime_lag_sep=B, method=["full", "ord", "LU"], spat_impacts=["simple", "full", "all", None], spat_diag=B, epsilon=[1e-7, 1e-5, 1e-6], cores=[False]), tol=OPT),
    "ML_Error": _e("ML_Error", "y x w", dict(SLX, method=["full", "ord", "LU"], epsilon=[1e-7, 1e-5, 1e-6]), tol=OPT),
    "ML_Error_Regimes": _e("ML_Error_Regimes", "y x regimes w", dict(SLX, constant_regi=["many", "one"], cols2regi=["all", "MASK"], regime_err_sep=B, method=["full", "ord", "LU"], epsilon=[1e-7, 1e-5, 1e-6], cores=[False]), tol=OPT),
    "Probit": _e("Probit", "yb x w", dict(SLX, optim=["newton", "bfgs", "ncg"], bstart=[False, "B0"], scalem=["phimean", "xmean"], predflag=B, maxiter=[100, 20], spat_diag=B), tol=OPT),
    "NSLX": _e("NSLX", "y x coords", dict(params=[[[6, INF, "exponential"]], None, [[5, INF, "power"]], [[6, 2.5, "exponential"]]], var_flag=[1, 0], conv_flag=[0, 1], slx_vars=[SLXV], leafsize=[30, 5], distance_metric=["Euclidean", "Manhattan"]), tol=(1e-3, 1e-5)),
}

PANEL = {
    "PooledOLS": dict(SLX, robust=[None, "white"], nonspat_diag=B, spat_diag=[True, False]),
    "PanelFE": dict(SLX),
    "PanelRE": dict(SLX, spat_diag=[True, False]),
    "ML_ErrorPooled": dict(SLX, epsilon=[1e-7, 1e-5, 1e-6], method=["LU", "full", "ord"], nonspat_diag=[True, False]),
    "GM_ErrorPooled": dict(SLX, nonspat_diag=[True, False], max_iter=[1, 3], step1c=B),
    "GM_ErrorRE": dict(SLX, full_weights=B),
    "ML_ErrorFE": dict(SLX, epsilon=[1e-7, 1e-5, 1e-6]),
    "ML_ErrorRE": dict(SLX, epsilon=[1e-7, 1e-5, 1e-6]),
    "ML_LagFE": dict(SLX, epsilon=[1e-7, 1e-5, 1e-6], spat_impacts=["simple", "full", "all", None]),
    "ML_LagRE": dict(SLX, epsilon=[1e-7, 1e-5, 1e-6], spat_impacts=["simple", "full", "all", None]),
    "GM_KKP": dict(full_weights=B),
    "Panel_FE_Lag": dict(epsilon=[1e-7, 1e-5, 1e-6]),
    "Panel_FE_Error": dict(epsilon=[1e-7, 1e-5, 1e-6]),
    "Panel_RE_Lag": dict(epsilon=[1e-7, 1e-5, 1e-6]),
    "Panel_RE_Error": dict(epsilon=[1e-7, 1e-5, 1e-6]),
}
for _k, _o in PANEL.items():
    EST[_k] = _e(_k, "y x w", _o, kind="panel", tol=OPT if "OLS" not in _k and _k != "PanelFE" else (1e-6, 1e-9))
    if _k in ("GM_KKP", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error"):
        EST[_k]["opts"].pop("latex")

SURS = {
    "SUR": ("bigy bigX w", dict(nonspat_diag=[True, False], spat_diag=B, iter=B, maxiter=[5, 2], epsilon=[1e-5, 1e-3], sreg=B)),
    "ThreeSLS": ("bigy bigX bigyend bigq", dict(nonspat_diag=[True, False], sreg=B)),
    "SURlagIV": ("bigy bigX bigyend? bigq? w", dict(LAGQ, nonspat_diag=[True, False], spat_diag=B, sreg=B, regime_lag_sep=B)),
    "SURerrorGM": ("bigy bigX w", dict(nonspat_diag=[True, False], spat_diag=B, sreg=B)),
    "SURerrorML": ("bigy bigX w", dict(epsilon=[1e-7, 1e-5, 1e-6], nonspat_diag=[True, False], spat_diag=B, sreg=B)),
}
for _k, (_a, _o) in SURS.items():
    EST[_k] = _e(_k, _a, _o, kind="sur", tol=OPT)
    EST[_k]["opts"].pop("latex")
    if _k == "ThreeSLS":
        EST[_k]["opts"].pop("vm")

ENDOG = {
    "OLS_Endog_Regimes": ("y x w", {}),
    "TSLS_Endog_Regimes": ("y x yend q w", {}),
    "GM_Lag_Endog_Regimes": ("y x w", {}),
}
for _k, (_a, _o) in ENDOG.items():
    EST[_k] = _e(_k, _a, dict(_o, n_clusters=[2, 3], quorum=[12], trace=[True], spat_diag=B), kind="endog", slow=True)
    EST[_k]["opts"].pop("latex")

FUNS = {}


def fun(name, args, tol=(1e-6, 1e-9), opts=None, slow=False, kind="xs"):
    def deco(f):
        EST[name] = _e(name, args, opts or {}, tol=tol, kind=kind, fn=f, slow=slow)
        EST[name]["opts"] = dict(opts or {})
        FUNS[name] = f
        return f
    return deco


@fun("Skater_reg", "y x w", opts={"n_clusters": [2, 3], "model": ["OLS", "none", "GM_Lag"]}, slow=True)
def _skater(a, o):
    y, x, w = a["y"], a["x"], a["w"]
    xs = (x - x.mean(axis=0)) / x.std(axis=0)
    dr = None
    if o["model"] == "OLS":
        dr = {"reg": spreg.OLS, "y": y, "x": x}
    elif o["model"] == "GM_Lag":
        dr = {"reg": spreg.GM_Lag, "y": y, "x": x, "w": a["w2"]}
    a["data_reg"] = dr
    return lambda: skater_reg.Skater_reg().fit(o["n_clusters"], w, xs, dr, quorum=12, trace=True, verbose=o.get("_verbose", 0))


@fun("ols_diagnostics", "y x w", opts={"tests": [["all"], ["lme", "rlme"], ["lml", "sarma"], ["wx", "lmwx", "spdurbin", "rlmdurlag", "rlmwx"]], "z": B, "pre": [False, True]})
def _olsdiag(a, o):
    reg = spreg.OLS(a["y"], a["x"], nonspat_diag=o["pre"])
    a["reg_in"] = reg
    w = a["w"]

    def go():
        lm = spreg.LMtests(reg, w, tests=o["tests"])
        mi = spreg.MoranRes(reg, w, z=o["z"])
        return {"lm": lm, "moran": mi, "white": spreg.white(reg), "bp": spreg.breusch_pagan(reg), "kb": spreg.koenker_bassett(reg),
                "jb": spreg.jarque_bera(reg), "ci": spreg.condition_index(reg), "vif": spreg.vif(reg), "f": spreg.f_stat(reg),
                "t": spreg.t_stat(reg), "r2": spreg.r2(reg), "ar2": spreg.ar2(reg), "aic": spreg.akaike(reg), "sc": spreg.schwarz(reg),
                "ll": spreg.log_likelihood(reg), "se": spreg.se_betas(reg)}
    return go


@fun("tsls_diagnostics", "y x yend q w", opts={"case": ["nosp", "gen"]})
def _tslsdiag(a, o):
    w = a["w"]
    if o["case"] == "gen":
        reg = spreg.GM_Lag(a["y"], a["x"], w=w, spat_diag=False)
    else:
        reg = spreg.TSLS(a["y"], a["x"], a["yend"], a["q"])
    a["reg_in"] = reg

    def go():
        out = {"ak": spreg.AKtest(reg, w, case=o["case"]), "t": spreg.t_stat(reg, z_stat=True), "pr2": spreg.pr2_aspatial(reg)}
        if o["case"] == "gen":
            out["pr2e"] = spreg.pr2_spatial(reg)
        else:
            out["dwh"] = spreg.dwh(reg)
        return out
    return go


for _s in ("stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"):
    def _mk(_s):
        def f(a, o):
            fn = getattr(spsearch, _s)
            return lambda: fn(a["y"], a["x"], a["w"], w_lags=o["w_lags"], robust=o["robust"], p_value=o["p_value"], finmod=o["finmod"], mprint=o.get("_mprint", False))
        return f
    fun(_s, "y x w", tol=OPT, opts={"w_lags": [2, 1], "robust": [None, "white"], "p_value": [0.01, 0.1], "finmod": [True, False]}, slow=True)(_mk(_s))


@fun("panel_diagnostics", "y x w", kind="panel", tol=OPT)
def _paneldiag(a, o):
    y, x, w = a["y"], a["x"], a["w"]

    def go():
        fe, re_ = spreg.Panel_FE_Lag(y, x, w), spreg.Panel_RE_Lag(y, x, w)
        return {"lme": spreg.panel_LMerror(y, x, w), "lml": spreg.panel_LMlag(y, x, w), "rlme": spreg.panel_rLMerror(y, x, w),
                "rlml": spreg.panel_rLMlag(y, x, w), "haus": spreg.panel_Hausman(fe, re_)}
    return go


@fun("sputils", "x w", opts={"method": ["simple", "full", "power"], "rho": [0.3, 0.7]})
def _sputils(a, o):
    x, w = a["x"], a["w"]

    def go():
        from spreg import utils as U
        return {"m": spreg.spmultiplier(w, o["rho"], method=o["method"]), "lags": U.get_lags(w, x, 2), "inv": U.inverse_prod(w, x, o["rho"]),
                "inv2": U.inverse_prod(w, x, o["rho"], inv_method="true_inv"), "filt": U.get_spFilter(w, o["rho"], x),
                "pe": U.inverse_prod(w, x, o["rho"], post_multiply=False), "im": spreg.i_multipliers(w, coef=o["rho"], id=None)}
    return go


@fun("regimes_tools", "x regimes w", opts={"constant": B})
def _regtools(a, o):
    from spreg import regimes as REGI
    x, regimes, w = a["x"], a["regimes"], a["w"]
    rs = REGI._get_regimes_set(regimes)

    def go():
        ids = {r: [i for i, t in enumerate(regimes) if t == r] for r in rs}
        wr = REGI.w_regimes(w, regimes, rs, transform=True, get_ids=True)
        return {"x": REGI.regimeX_setup(x, regimes, [True] * x.shape[1], rs, constant=o["constant"]), "ids": ids, "wr": wr[0],
                "wi": REGI.w_regime(w, [i for i in ids[rs[0]]], rs[0], transform=True)[0], "x2": REGI.x2xsp(x, regimes, rs)}
    return go


def _rngs(seed):
    return np.random.default_rng(seed)


@fun("dgp", "w", opts={"model": ["sar", "ma"], "err": ["normal", "laplace", "cauchy", "lognormal"], "xm": ["uniform", "normal", "bivnormal"], "ybin": B, "rho": [0.3, 0.6]})
def _dgp(a, o):
    w = a["w"]
    rng = np.random.default_rng(7)
    n = w.n

    def go():
        D = spreg.dgp
        mu = [0, 1]
        x = D.make_x(rng, n, mu=mu, varu=[1, 2], cor=0.3 if o["xm"] == "bivnormal" else 0, method=o["xm"])
        u = D.make_error(rng, n, mu=0, varu=1, method=o["err"])
        xb = D.make_xb(x, [1.0, 0.5, 0.7])
        wx = D.make_wx(x, w, 1)
        wxg = D.make_wxg(wx, [0.3, 0.2])
        out = {"x": x, "u": u, "xb": xb, "wx": wx, "wxg": wxg}
        out["ols"] = D.dgp_ols(u, xb)
        out["slx"] = D.dgp_slx(u, xb, wxg, ybin=o["ybin"])
        out["err"] = D.dgp_sperror(u, xb, w, lam=o["rho"], model=o["model"], ybin=o["ybin"])
        out["lag"] = D.dgp_lag(u, xb, w, rho=o["rho"], ybin=o["ybin"])
        out["sdm"] = D.dgp_spdurbin(u, xb, wxg, w, rho=o["rho"], ybin=o["ybin"])
        out["le"] = D.dgp_lagerr(u, xb, w, rho=o["rho"], lam=0.2, model=o["model"], ybin=o["ybin"])
        out["gns"] = D.dgp_gns(u, xb, wxg, w, rho=o["rho"], lam=0.2, model=o["model"], ybin=o["ybin"])
        out["slxe"] = D.dgp_slxerror(u, xb, wxg, w, lam=0.2, model=o["model"], ybin=o["ybin"])
        out["mess"] = D.dgp_mess(u, xb, w, rho=o["rho"])
        out["probit"] = D.dgp_probit(u, xb)
        return out
    return go


@fun("probit_diagnostics", "yb x w", tol=OPT)
def _probdiag(a, o):
    w = a["w"]
    reg = spreg.Probit(a["yb"], a["x"], w=w)
    a["reg_in"] = reg

    def go():
        from spreg import diagnostics_probit as DP
        return {"tab": DP.pred_table(reg), "fit": DP.probit_fit(reg), "lr": DP.probit_lrtest(reg), "rho": DP.mcfad_rho(reg),
                "ape": DP.probit_ape(reg), "sp": DP.sp_tests(regprob=reg)}
    return go


@fun("panel_bsk", "y x w", kind="panel", tol=OPT, opts={"base": ["PooledOLS", "PanelRE", "ML_ErrorPooled", "GM_ErrorPooled"],
                                                       "which": ["all", "LMJ", "LMC_RE", "LMC_spatial", ["LM1", "LM2"]], "gm": B})
def _bsk(a, o):
    w = a["w"]
    from spreg import diagnostics_panel as DPn
    reg = getattr(spreg, o["base"])(a["y"], a["x"], w)
    a["reg_in"] = reg
    return lambda: DPn.BSK_tests(reg, w, which=o["which"], GM_BSK=o["gm"])


def _base(cls, make, args, tol=(1e-6, 1e-9), kind="xs", opts=None):
    """The Base* classes other packages build on: they compute more on demand."""
    def f(a, o):
        return make(a, o)
    fun(cls, args, tol=tol, kind=kind, opts=opts)(f)
    EST[cls]["model"] = True


def _one(x):
    return np.hstack((np.ones((x.shape[0], 1)), x))


def _mods():
    from spreg import ols, twosls, twosls_sp, error_sp, error_sp_het, error_sp_hom, ml_lag, ml_error, probit
    return ols, twosls, twosls_sp, error_sp, error_sp_het, error_sp_hom, ml_lag, ml_error, probit


def _bx(key, fn, **kw):
    def make(a, o):
        a["x1"] = _one(a["x"])
        mods = dict(zip("ols twosls twosls_sp error_sp error_sp_het error_sp_hom ml_lag ml_error probit".split(), _mods()))
        return lambda: fn(mods, a, o)
    _base(key, make, **kw)


_bx("BaseOLS", lambda m, a, o: m["ols"].BaseOLS(a["y"], a["x1"], robust=o["robust"], sig2n_k=o["sig2n_k"]), args="y x", opts={"robust": [None, "white"], "sig2n_k": B})
_bx("BaseTSLS", lambda m, a, o: m["twosls"].BaseTSLS(a["y"], a["x1"], a["yend"], q=a["q"], robust=o["robust"], sig2n_k=o["sig2n_k"]), args="y x yend q",
    opts={"robust": [None, "white", "ogmm"], "sig2n_k": B})
_bx("BaseGM_Lag", lambda m, a, o: m["twosls_sp"].BaseGM_Lag(a["y"], a["x1"], w=a["w"], w_lags=o["w_lags"], robust=o["robust"]), args="y x w", opts={"w_lags": [1, 2], "robust": [None, "white"]})
_bx("BaseGM_Error", lambda m, a, o: m["error_sp"].BaseGM_Error(a["y"], a["x1"], a["w"].sparse), args="y x w", tol=OPT)
_bx("BaseGM_Endog_Error", lambda m, a, o: m["error_sp"].BaseGM_Endog_Error(a["y"], a["x1"], a["yend"], a["q"], a["w"].sparse), args="y x yend q w", tol=OPT)
_bx("BaseGM_Error_Het", lambda m, a, o: m["error_sp_het"].BaseGM_Error_Het(a["y"], a["x1"], a["w"].sparse, max_iter=o["max_iter"]), args="y x w", tol=OPT, opts={"max_iter": [1, 3]})
_bx("BaseGM_Error_Hom", lambda m, a, o: m["error_sp_hom"].BaseGM_Error_Hom(a["y"], a["x1"], a["w"].sparse, max_iter=o["max_iter"]), args="y x w", tol=OPT, opts={"max_iter": [1, 3]})
_bx("BaseML_Lag", lambda m, a, o: m["ml_lag"].BaseML_Lag(a["y"], a["x1"], a["w"], method=o["method"]), args="y x w", tol=OPT, opts={"method": ["full", "ord", "LU"]})
_bx("BaseML_Error", lambda m, a, o: m["ml_error"].BaseML_Error(a["y"], a["x1"], a["w"], method=o["method"]), args="y x w", tol=OPT, opts={"method": ["full", "ord", "LU"]})
_bx("BaseProbit", lambda m, a, o: m["probit"].BaseProbit(a["yb"], a["x1"], optim=o["optim"]), args="yb x", tol=OPT, opts={"optim": ["newton", "bfgs", "ncg"]})


_BHOM = {"max_iter": [1, 3], "A1": ["hom_sc", "hom"]}
_BHET = {"max_iter": [1, 3], "step1c": B, "inv_method": ["power_exp", "true_inv"]}


def _bmore():
    def het(cls, end):
        mod = "error_sp_het" if "Het" in cls else "error_sp_hom"
        def call(m, a, o):
            kw = {k: o[k] for k in (_BHET if "Het" in cls else _BHOM)}
            C = getattr(m[mod], cls)
            if end:
                return C(a["y"], a["x1"], a["yend"], a["q"], a["w"].sparse, **kw)
            ye, q = spreg.set_endog(a["y"], a["x"], a["w"], None, None, o["w_lags"], True)
            return C(a["y"], a["x1"], ye, q, w=a["w"].sparse, w_lags=o["w_lags"], **kw)
        _bx(cls, call, args="y x yend q w" if end else "y x w", tol=OPT, opts=dict(_BHET if "Het" in cls else _BHOM, **({} if end else {"w_lags": [1, 2]})))
    for c in ("BaseGM_Endog_Error_Het", "BaseGM_Endog_Error_Hom"):
        het(c, True)
    for c in ("BaseGM_Combo_Het", "BaseGM_Combo_Hom"):
        het(c, False)


_bmore()


def _stacked(y, n):
    t = y.shape[0] // n
    return y.reshape(t, n).T.copy()


def _pbase(cls, mod, **kw):
    def make(a, o):
        import importlib
        M = importlib.import_module("spreg." + mod)
        C = getattr(M, cls)
        y, x = a["y"], a["x"]
        if o.get("_wide"):
            y, x = y.T.reshape(-1, 1), np.hstack([v.T.reshape(-1, 1) for v in np.hsplit(x, x.shape[1] // y.shape[1])])
        if "RE" in cls or cls == "BaseGM_KKP":
            x = _one(x)
        a["yl"], a["xl"] = y, x
        return lambda: C(a["yl"], a["xl"], a["w"], **{k: v for k, v in o.items() if k[0] != "_"})
    _base(cls, make, args="y x w", kind="panel", tol=OPT, **kw)


_pbase("BasePanel_FE_Lag", "panel_fe", opts={"epsilon": [1e-7, 1e-3]})
_pbase("BasePanel_FE_Error", "panel_fe", opts={"epsilon": [1e-7, 1e-3]})
_pbase("BasePanel_RE_Lag", "panel_re", opts={"epsilon": [1e-7, 1e-3]})
_pbase("BasePanel_RE_Error", "panel_re", opts={"epsilon": [1e-7, 1e-3]})
_pbase("BaseGM_KKP", "sp_panels", opts={"full_weights": B})


def _sbase(cls, mod, args, names, opts=None):
    def make(a, o):
        import importlib
        C = getattr(importlib.import_module("spreg." + mod), cls)
        return lambda: C(*[a[n] for n in names], **{k: v for k, v in o.items() if k[0] != "_"})
    _base(cls, make, args=args, kind="sur", tol=OPT, opts=opts)


_sbase("BaseSUR", "sur", "bigy bigX", ["bigy", "bigX"], {"iter": B, "maxiter": [5, 9], "epsilon": [1e-5, 1e-2]})
_sbase("BaseThreeSLS", "sur", "bigy bigX bigyend bigq", ["bigy", "bigX", "bigyend", "bigq"])
_sbase("BaseSURerrorGM", "sur_error", "bigy bigX w", ["bigy", "bigX", "w"])
_sbase("BaseSURerrorML", "sur_error", "bigy bigX w", ["bigy", "bigX", "w"], {"epsilon": [1e-7, 1e-3]})

#: labels in no particular order, some equal up to case or not ASCII, numbers as text among them
PERIODS = {"text": ["mid", "early", "late", "Late"], "ascii": ["10", "9", "2", "1"], "int": [1970, 1960, 1990, 1980], "float": [2.5, 1.0, 3.0, 10.0], "utf": ["\u00e9t\u00e9", "hiver", "\u00c9t\u00e9", "printemps"]}


class Columns(dict):
    """What a .dbf reader offers: columns by name and nothing else."""

    def by_col(self, name):
        return self[name]


@fun("sur_tables", "y x", tol=(1e-12, 0.0), opts={"ids": ["text", "ascii", "int", "float", "utf"], "units": ["num", "text"], "table": ["pd", "columns"], "t": [2, 3, 4], "const": B})
def _surtables(a, o):
    """Long and wide tables read into equations."""
    t = o["t"]
    m = a["x"].shape[0] // t
    labs = PERIODS[o["ids"]][:t]
    cells = [(u, p) for u in range(m) for p in range(t)]
    cells = [cells[(7 * i + 3) % len(cells)] if len(cells) % 7 else cells[i] for i in range(len(cells))]
    cells = list(dict.fromkeys(cells)) if len(set(cells)) == m * t else [(u, p) for u in range(m) for p in range(t)]
    sid = [("unit %s" % "zyxwv"[u % 5] + str(u)) if o["units"] == "text" else 100 - 3 * u for u, _ in cells]
    tid = [labs[p] for _, p in cells]
    n = len(cells)
    cols = {"sid": sid, "tid": tid, "yy": list(a["y"][:n, 0])}
    xn = ["x%d" % j for j in range(a["x"].shape[1])]
    for j, nm in enumerate(xn):
        cols[nm] = list(a["x"][:n, j])
    wide = {k: v[: n // 2] for k, v in cols.items()}
    mk = pd.DataFrame if o["table"] == "pd" else Columns
    a["long"], a["wide"] = mk(cols), mk(wide)
    a["xs"], a["ys"], a["xw"] = [list(xn)], ["yy"], [list(xn), xn[:1]]

    def go():
        out = {"xy": spreg.sur_dictxy(a["long"], a["ys"], a["xs"], space_id=["sid"], time_id=["tid"]), "wxy": spreg.sur_dictxy(a["wide"], ["yy", xn[0]], a["xw"]),
               "wz": spreg.sur_dictZ(a["wide"], a["xw"], const=o["const"])}
        try:
            out["z"] = spreg.sur_dictZ(a["long"], a["xs"], form="plm", const=o["const"], space_id=["sid"], time_id=["tid"])
        except ValueError as e:
            out["z"] = "ValueError"      # periods that are not numbers
        return out
    return go


@fun("sur_tools", "bigy bigX", kind="sur")
def _surtools(a, o):
    from spreg import sur_utils as SU
    y, X = a["bigy"], a["bigX"]

    def go():
        XX, Xy = SU.sur_crossprod(X, y)
        E = np.hstack([y[r] - y[r].mean() for r in sorted(y)])
        bK = np.array([[X[r].shape[1]] for r in sorted(X)])
        bS, vb, sig = SU.sur_est(XX, Xy, E, bK)
        return {"xx": XX, "xy": Xy, "mat": SU.sur_dict2mat(y), "corr": SU.sur_corr(sig), "b": bS, "vb": vb, "sig": sig, "back": SU.sur_mat2dict(SU.sur_dict2mat(bS), bK),
                "res": SU.sur_resids(y, X, bS), "pred": SU.sur_predict(y, X, bS), "lm": spreg.diagnostics_sur.sur_lmtest(y[0].shape[0], len(y), sig), "t": spreg.diagnostics_sur.sur_setp(bS, vb)}
    return go


@fun("sparse_tools", "y x regimes w", opts={"rho": [0.3, 0.7], "lags": [3, 2, 4], "split": [1, 2]})
def _sparsetools(a, o):
    from spreg import utils as U, regimes as REGI, user_output as UO, probit
    from spreg import diagnostics_sp as DS, diagnostics as DG
    y, x, regimes, w = a["y"], a["x"], a["regimes"], a["w"]
    rs = REGI._get_regimes_set(regimes)
    xn = ["x%d" % j for j in range(x.shape[1])]
    a["xn"] = xn
    sx = REGI.regimeX_setup(x, regimes, [True] * x.shape[1], rs)
    m = spreg.GM_Lag(y, x, w=w)

    def go():
        ids = {r: [i for i, t in enumerate(regimes) if t == r] for r in rs}
        k = x.shape[1]
        b = np.arange(1.0, 2 * k + 1).reshape(-1, 1)
        R = REGI.buildR(k, 0, 2)
        split = min(o["split"], o["lags"] - 1)
        out = {"split": U.get_lags_split(w, x, o["lags"], split), "flex": UO.flex_wx(w, x, xn, constant=False, slx_lags=o["lags"]),
               "dot": U.spdot(sx.T, sx), "mul": U.spmultiply(sx, sx), "hst": U.sphstack(sx, sx), "mx": U.spmax(sx), "mn": U.spmin(sx), "fin": U.spisfinite(sx),
               "sq": U.spfill_diagonal(U.spdot(sx.T, sx).copy() if hasattr(U.spdot(sx.T, sx), "copy") else sx, 1.0), "wald": REGI.wald_test(b, R, np.zeros((R.shape[0], 1)), np.eye(2 * k)),
               "R": R}
        if sum(map(len, ids.values())) == len(regimes):
            wi = {r: REGI.w_regime(w, ids[r], r, transform=True)[0] for r in rs}
            out["union"] = REGI.w_regimes_union(w, wi, rs)
        return out
    return go


@fun("spDcache", "y x w")
def _spdc(a, o):
    from spreg import diagnostics_sp as DS
    reg = spreg.OLS(a["y"], a["x"])
    return lambda: DS.spDcache(reg, a["w"])


EST["spDcache"]["model"] = True

ALL = sorted(EST)
FAST = [e for e in ALL if not EST[e].get("slow")]
CORES = [e for e in ALL if "cores" in EST[e]["opts"]]
MODELS = [e for e in ALL if "fn" not in EST[e] or EST[e].get("model")]


# --------------------------------------------------------------------- sample


def sample(rng, est, plain=0.45, **force):
    """Draw a spec for `est`.  Each option keeps its first (plain) value with
    probability `plain`, so that most fits succeed and combinations vary."""
    E = EST[est]
    k = rng.weighted([(2, 10), (3, 5), (1, 2), (5, 3)])
    d = {"seed": rng.randrange(1 << 30), "k": k, "ke": 1, "xq": rng.pick([1, 2])}
    if E["kind"] == "panel":
        d.update(r=rng.pick([4, 5]), c=rng.pick([4, 5]), t=rng.pick([3, 4]), w=rng.pick(["rook", "queen"]), wt="r", k=2)
    elif E["kind"] == "sur":
        d.update(r=6, c=rng.pick([6, 8]), neq=rng.pick([2, 2, 3]), k=rng.pick([2, 1]), uneven=rng.flip(0.3), nreg=2, reg=rng.pick(["str", "int"]), w="rook", wt="r")
    elif E["kind"] == "endog" or E.get("slow") and est == "Skater_reg":
        d.update(r=7, c=8, w=rng.pick(["rook", "queen"]), wt=rng.pick(["r", "b"]), k=2)
    elif est == "NSLX":
        side = rng.pick([6, 6, 6, 6, 3])   # the smallest have fewer points than the default number of neighbours
        d.update(r=side, c=side, w="rook", wt="r", k=2)
    else:
        nreg = rng.pick([2, 2, 3, 4])
        c = {2: rng.pick([6, 8]), 3: 9, 4: 12}[nreg] if E["regimes"] else rng.pick([6, 7, 8])
        if est.startswith(("ML_Lag", "ML_Error")):
            ws = ["rook", "queen", "rook", "rook", "knn", "rookstr"]
        else:
            ws = ["rook", "queen", "rook", "knn", "rookstr"]
        d.update(r=rng.pick([7, 8, 9] if E["regimes"] else [6, 7, 8]), c=c, nreg=nreg if E["regimes"] else 1, reg=rng.pick(["str", "int", "bool"]), scatter=rng.flip(0.4) and E["regimes"],
                 w=rng.pick(ws), wt=rng.weighted([("r", 6), ("b", 1)]))
        if E["regimes"] and d["w"] == "knn":
            d["w"] = "queen"
    o = {}
    for name in sorted(E["opts"]):
        ch = E["opts"][name]
        if ch == [SLXV]:
            o[name] = "All" if rng.flip(0.6) else [rng.flip() for _ in range(d["k"])]
            if o[name] != "All" and not any(o[name]):
                o[name][0] = True
        else:
            o[name] = ch[0] if rng.flip(plain) else rng.pick(ch)
            if o[name] == "MASK":
                o[name] = [rng.flip(0.7) for _ in range(d["k"])]
    o["_endog"] = rng.flip(0.6)
    o["_names"] = rng.flip(0.6)
    o["_form"] = rng.weighted([("np", 6), ("pd", 2), ("flat", 1)])
    if E["kind"] == "panel":
        o["_wide"] = rng.flip(0.25)
    o.update({k_: v for k_, v in force.items()})
    spec = {"est": est, "d": d, "o": o}
    _reconcile(spec)
    return spec


def _reconcile(spec):
    """Keep the combinations spreg documents as supported."""
    est, d, o = spec["est"], spec["d"], spec["o"]
    if o.get("cols2regi", "all") != "all":
        n_end = 0
        if "yend" in EST[est]["args"]:
            n_end += 1 if ("yend?" not in EST[est]["args"] or o.get("_endog")) else 0
        m = o["cols2regi"]
        if isinstance(m, list):
            # one flag per x, then one per endogenous regressor
            o["cols2regi"] = (m + [True] * 8)[: d["k"] + n_end]
            if o.get("slx_lags"):
                o["slx_lags"] = 0
    if est in ("GM_Lag_Regimes", "GM_Combo_Regimes", "GM_Combo_Het_Regimes", "GM_Combo_Hom_Regimes") and o.get("regime_err_sep") and not o.get("regime_lag_sep") and not est.startswith("GM_Lag"):
        o["regime_err_sep"] = False
    if isinstance(o.get("cols2regi"), list) and not all(o["cols2regi"]) or o.get("constant_regi") == "one":
        if "Error" in est or "Combo" in est:
            o["regime_err_sep"] = False
        if "regime_lag_sep" in o and "Combo" in est:
            o["regime_lag_sep"] = False
    if est == "Probit" and o.get("bstart") == "B0":
        o["slx_lags"] = 0
        o["bstart"] = [0.1] * (d["k"] + 1)
    if isinstance(o.get("slx_vars"), list) and ("Lag" in est or "Combo" in est or est.startswith("GMM")):
        o["slx_vars"] = "All"
    if est in ("ML_Lag_Regimes", "ML_Error_Regimes", "ML_Lag_kw_regimes", "ML_Error_kw_regimes") and o.get("slx_lags") == 2:
        # few observations per regime and many regressors put rho at -1, where
        # the power expansion takes minutes
        o["slx_lags"] = 1
    if o.get("method") == "ord" and d.get("w") == "knn":
        d["w"] = "queen"
    if est in ("GM_Lag", "GM_Lag_Regimes", "GM_Lag_kw_regimes") and o.get("slx_lags") and isinstance(o.get("spat_impacts"), list):
        o["spat_impacts"] = "simple"


# ---------------------------------------------------------------------- build


class Case:
    __slots__ = ("spec", "args", "call", "tol", "is_model", "pos")

    def __repr__(self):
        return "Case(%s)" % self.spec["est"]


def build(spec, share=None):
    """Fresh inputs for `spec` (or the shared ones given) and the call."""
    est, d, o = spec["est"], spec["d"], spec["o"]
    E = EST[est]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        args = share if share is not None else make_args(spec)
    case = Case()
    case.spec, case.args = spec, args
    case.tol = Tol(*E["tol"])
    case.is_model = "fn" not in E or bool(E.get("model"))
    if "fn" in E:
        case.call = E["fn"](args, o)
        return case
    cls = getattr(spreg, E["cls"])
    kw = {}
    for k, v in o.items():
        if k.startswith("_") or k == "sreg":
            continue
        kw[k] = v
    if est == "NSLX":
        if o["params"] is None:
            kw.pop("params")
        else:
            args.setdefault("params", [tuple(p) for p in o["params"]])
            kw["params"] = args["params"]
    if isinstance(o.get("slx_vars"), list) and "slx_vars" in args:
        kw["slx_vars"] = args["slx_vars"]
    if isinstance(o.get("cols2regi"), list) and "cols2regi" in args:
        kw["cols2regi"] = args["cols2regi"]
    if est.startswith(("GM_KKP",)):
        kw.pop("latex", None)
    for k, v in args.items():
        if k in ("slx_vars", "cols2regi", "params"):
            continue
        kw[{"yb": "y"}.get(k, k)] = v
    if E["kind"] == "endog" or est == "ThreeSLS":
        for k in ("name_ds", "name_w", "gwk", "name_gwk"):
            if est == "ThreeSLS" and k == "name_ds":
                continue
            kw.pop(k, None)
    if est in ("OLS_kw_regimes",):
        kw = {k: v for k, v in kw.items()}
    case.call = lambda: cls(**kw)
    return case


def _names(prefix, k):
    # unique, and not in alphabetical order
    return ["%s%d" % (prefix, (7 * i + 3) % 10 + i // 10 * 10) for i in range(k)]


def make_args(spec):
    est, d, o = spec["est"], spec["d"], spec["o"]
    E = EST[est]
    a = {}
    # names as people write them
    u = "\u00e9" if d["seed"] % 3 == 0 else ""
    if E["kind"] == "panel":
        dat, y, x = panel_data(d)
        a["y"], a["x"], a["w"] = y, x, dat.w
        if o.get("_wide"):
            n, t = dat.n, y.shape[0] // dat.n
            a["y"] = y.reshape(t, n).T.copy()
            a["x"] = np.hstack([x[:, j].reshape(t, n).T for j in range(x.shape[1])])
        if o.get("_names") and "fn" not in E and not o.get("_wide"):
            a["name_x"] = _names("v" + u, d["k"])
            a["name_y"] = "depy" + u
            if not o.get("_names_ds"):
                a["name_ds"] = "sim" + u
                a["name_w"] = "lattice" + u
        return a
    if E["kind"] == "sur":
        dat, y, X, Z, Q = sur_data(d)
        a["bigy"], a["bigX"] = y, X
        if "bigyend " in E["args"] + " " or ("bigyend?" in E["args"] and o["_endog"]):
            a["bigyend"], a["bigq"] = Z, Q
        if " w" in E["args"]:
            a["w"] = dat.w
        if o.get("sreg"):
            a["regimes"] = list(dat.regimes)
        if o.get("_names"):
            a["name_bigy"] = {i: "Y%d" % i for i in y}
            a["name_bigX"] = {i: ["Constant_%d" % i] + _names("X%d_" % i, X[i].shape[1] - 1) for i in y}
            a["name_ds"] = "sim" + u
            if "bigyend" in a and est in ("ThreeSLS", "SURlagIV"):
                a["name_bigyend"] = {i: _names("E%d_" % i, Z[i].shape[1]) for i in y}
                a["name_bigq"] = {i: _names("Q%d_" % i, Q[i].shape[1]) for i in y}
        return a
    dat = Data(d)
    form = o.get("_form", "np") if "fn" not in E else "np"
    for tok in E["args"].split():
        opt = tok.endswith("?")
        tok = tok.rstrip("?")
        if opt and not o.get("_endog"):
            continue
        if tok == "w":
            a["w"] = dat.w
        elif tok == "regimes":
            a["regimes"] = list(dat.regimes)
        elif tok == "coords":
            a["coords"] = dat.coords.copy()
        else:
            a[tok] = getattr(dat, tok).copy()
    if est == "Skater_reg":
        a["w2"] = copy.copy(make_w("rook", d["r"], d["c"], "r", dat.coords))
    if o.get("robust") == "hac":
        a["gwk"] = gwk(dat)
    if form == "pd":
        # row labels a data frame may well have after sorting or filtering
        ix = {0: np.arange(dat.n), 1: np.arange(dat.n)[::-1], 2: np.arange(dat.n) + 100}[d["seed"] % 3]
        if "y" in a:
            a["y"] = pd.Series(a["y"].ravel(), name="dep", index=ix)
        if "yb" in a:
            a["yb"] = pd.Series(a["yb"].ravel(), name="dep", index=ix)
        if "x" in a:
            a["x"] = pd.DataFrame(a["x"], columns=_names("col", a["x"].shape[1]), index=ix)
        if "yend" in a:
            a["yend"] = pd.DataFrame(a["yend"], columns=_names("end", a["yend"].shape[1]), index=ix)
            a["q"] = pd.DataFrame(a["q"], columns=_names("ins", a["q"].shape[1]), index=ix)
        if "regimes" in a:
            a["regimes"] = pd.Series(a["regimes"], name="regi", index=ix)
    elif form == "flat":
        for k in ("y", "yb", "yend"):
            if k in a and a[k].shape[1] == 1:
                a[k] = a[k].ravel().copy()
        if "q" in a and a["q"].shape[1] == 1:
            a["q"] = a["q"].ravel().copy()
        if "regimes" in a:
            a["regimes"] = np.array(a["regimes"])
    if isinstance(o.get("slx_vars"), list):
        a["slx_vars"] = list(o["slx_vars"])
    if isinstance(o.get("cols2regi"), list):
        a["cols2regi"] = list(o["cols2regi"])
    if o.get("_names") and "fn" not in E and form != "pd":
        a["name_y"] = "depy" + u
        a["name_x"] = _names("v" + u, d["k"])
        if "yend" in a:
            a["name_yend"] = _names("e" + u, 1)
            a["name_q"] = _names("z" + u, 1 if a["q"].ndim == 1 else a["q"].shape[1])
        if "w" in a:
            a["name_w"] = "lattice" + u
        a["name_ds"] = "sim" + u
        if "gwk" in a:
            a["name_gwk"] = "kern"
        if "regimes" in a and E["kind"] != "endog":
            a["name_regimes"] = "regi" + u
        if est == "NSLX":
            a["name_coords"] = ["cx", "cy"]
            a.pop("name_w", None)
    return a
