"""C13: iterations are bounded and report truthfully how they ended."""
import itertools
import sys
import warnings

import numpy as np
import scipy.optimize as op
from scipy.stats import norm

import spreg

from .. import simsolver, work, snap as S
from ..core import Rng, TooSlow
from ..session import capture, h, ok, violation, where, shrink_spec, same

COUNTS = {"quick": 1400, "thorough": 24000}
RULE = ("one run = one estimation over a simulated numerical solver that returns seeded values (oscillating, drifting, stalling, settling geometrically or late, random), convergence flags, bound-hitting "
        "values or an error at its n-th call, checked against the recorded sequence of solver answers or a small reference iteration; non-trivial when the solver answered at least once; distinct by "
        "(estimator, options, solver behaviour)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "the real scipy solver computes the answers that the policy then replaces"]
STUB = ["scipy.optimize.minimize, minimize_scalar, fmin_l_bfgs_b, fmin_bfgs, fmin_ncg as seen by spreg"]
ASSUME = ["a solver call itself returns (its own limits are scipy's business)"]
MUST_HIT = ["iterate", "oscillate", "converged", "limit", "restart", "edge_raise", "edge_warn", "solver_error", "loop", "flags", "newton", "newton_unfinished", "sur", "sur_limit", "scalar", "nslx", "series", "diverging", "regimes_separate"]

HH = ["GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het", "GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom", "GM_Error_Het_Regimes", "GM_Endog_Error_Het_Regimes", "GM_Combo_Het_Regimes",
      "GM_Error_Hom_Regimes", "GM_Endog_Error_Hom_Regimes", "GM_Combo_Hom_Regimes", "BaseGM_Error_Het", "BaseGM_Error_Hom"]
BOUNDED = ["GM_Error", "GM_Endog_Error", "GM_Combo", "GM_Error_Het", "GM_Error_Hom", "GM_Endog_Error_Het", "GM_Endog_Error_Hom", "GM_Combo_Het", "GM_Combo_Hom"]
SCALAR = ["ML_Lag", "ML_Error", "ML_Lag_Regimes", "ML_Error_Regimes", "ML_ErrorPooled", "ML_ErrorFE", "ML_LagFE", "Panel_FE_Lag", "Panel_FE_Error", "ML_ErrorRE", "Panel_RE_Error", "BaseML_Lag", "BaseML_Error",
          "GM_Error", "GM_Error_Regimes"]
LOOPS = ["Panel_RE_Lag", "ML_LagRE", "SURerrorML"]
USERS = sorted(set(HH + BOUNDED + SCALAR + LOOPS + ["Probit", "NSLX", "GM_ErrorPooled", "GM_ErrorRE", "GM_KKP", "SURerrorGM", "GM_Endog_Error_Regimes", "GM_Combo_Regimes", "GMM_Error", "GMM_Error_Regimes"]))
ERRORS = [ValueError, RuntimeError, np.linalg.LinAlgError, FloatingPointError, ZeroDivisionError, TypeError, KeyError, AttributeError, IndexError, OverflowError, MemoryError, NotImplementedError]

JUMPS = 3000000


class Steps:
    """Counts the jumps spreg's own code takes; ends the run when there are too many."""

    def __init__(self, limit=JUMPS):
        self.n, self.limit = 0, limit

    def __enter__(self):
        M = sys.monitoring
        self.tool = next(t for t in (5, 4, 3) if M.get_tool(t) is None)
        M.use_tool_id(self.tool, "dst-steps")

        def jump(code, a, b):
            if "/spreg/" not in code.co_filename:
                return M.DISABLE
            self.n += 1
            if self.n > self.limit:
                raise simsolver.Runaway("%d loop steps" % self.n)
        M.register_callback(self.tool, M.events.JUMP, jump)
        M.register_callback(self.tool, M.events.BRANCH, jump)
        M.set_events(self.tool, M.events.JUMP | M.events.BRANCH)
        return self

    def __exit__(self, *a):
        M = sys.monitoring
        M.set_events(self.tool, 0)
        M.register_callback(self.tool, M.events.JUMP, None)
        M.register_callback(self.tool, M.events.BRANCH, None)
        M.free_tool_id(self.tool)


MODES = ["iterate"] * 8 + ["edge"] * 2 + ["error"] * 4 + ["loop"] * 2 + ["probit"] * 3 + ["sur"] * 2 + ["scalar"] * 3 + ["nslx", "series"]


def gen(seed, i, tier):
    rng = Rng(seed, "C13", tier, i)
    mode = MODES[i // 4 % len(MODES)]
    seq = simsolver.sequence(rng)
    p = {"mode": mode, "seq": seq, "salt": rng.randrange(1 << 30)}
    plain = 0.6

    def draw(est, **kw):
        force = dict(kw)
        if "cores" in work.EST[est]["opts"]:
            force["cores"] = False
        return work.sample(rng, est, plain=plain, **force)
    if mode == "iterate":
        est = rng.pick(HH)
        o = {"max_iter": rng.pick([1, 2, 3, 4, 5, 7, 12]), "epsilon": rng.pick([1e-5, 1e-3, 1e-2])}
        p["spec"] = draw(est, **{k: v for k, v in o.items() if k in work.EST[est]["opts"]})
        p["spec"]["o"]["hard_bound"] = False
    elif mode == "edge":
        est = rng.pick(BOUNDED)
        p["spec"] = draw(est)
        p["spec"]["o"]["hard_bound"] = rng.flip(0.6)
        p["edge"] = rng.pick([0.99, -0.99])
    elif mode == "error":
        est = rng.pick(USERS)
        p["spec"] = draw(est)
        if est == "Probit":
            p["spec"]["o"]["optim"] = rng.pick(["bfgs", "ncg"])
        p["error"], p["at"] = rng.randrange(len(ERRORS)), rng.pick([0, 0, 1, 2, 4])
    elif mode == "loop":
        p["spec"] = draw(rng.pick(LOOPS), vm=False)
        p["seq2"] = simsolver.sequence(rng)
    elif mode == "probit":
        p["spec"] = draw("Probit", optim=rng.pick(["newton", "newton", "bfgs", "ncg"]), maxiter=rng.pick([1, 2, 3, 4, 5, 8, 20, 100]), slx_lags=0)
        p["spec"]["o"]["bstart"] = False
        p["start"] = [round(rng.uniform(-1, 1), 2) for _ in range(8)] if rng.flip(0.5) else None
        p["flag"] = rng.pick([None, None, 0, 1, 2])
    elif mode == "sur":
        p["spec"] = draw("SUR", iter=True, maxiter=rng.pick([1, 2, 3, 4, 5, 8, 30]), sreg=False)
        p["spec"]["o"]["epsilon"] = rng.pick([1e-5, 1e-5, 1e-9, 1e-3, 0.0])
    elif mode == "scalar":
        p["spec"] = draw(rng.pick(SCALAR))
        p["v"] = [round(rng.uniform(-0.6, 0.7), 3) for _ in range(12)]
    elif mode == "nslx":
        p["spec"] = draw("NSLX", conv_flag=0)
        p["maxiter"] = rng.pick([None, 1, 2, 5, 40])
        p["flag"] = rng.pick([None, None, True, False])
    else:
        p["spec"] = draw("sputils", rho=rng.pick([0.3, 0.7, -0.4, 0.9, 0.05, -0.85]))
        p["m"] = rng.pick([None, 1, 2, 5, 20])
        p["tol"] = rng.pick([1e-10, 1e-6, 1e-3])
        p["raw"] = rng.pick([None, None, 0.7, -0.55, 0.95, 0.3, 0.51])
        p["post"] = rng.flip(0.3)
    return p


# ------------------------------------------------------------------- policies


def lam_policy(vals):
    """fmin_l_bfgs_b returns vals[i] (last one repeated) as the spatial parameter."""
    n = [0]

    def policy(when, rec, res):
        if when != "after" or rec["solver"] != "fmin_l_bfgs_b":
            return res
        x = np.array(res[0], float)
        v = vals(n[0])
        n[0] += 1
        x[0] = v
        rec["value"] = v
        return (x,) + tuple(res[1:])
    return policy


def scalar_policy(phi, rho):
    """minimize_scalar returns phi(i) where the parameter is a share, rho(i) otherwise."""
    n = {"phi": 0, "rho": 0}

    def policy(when, rec, res):
        if when != "after" or rec["solver"] not in ("minimize_scalar", "minimize", "fmin_l_bfgs_b"):
            return res
        if rec["solver"] == "minimize_scalar":
            b = rec["kw"].get("bounds") or (-1, 1)
            which = "phi" if b[0] >= 0 else "rho"
            v = (phi if which == "phi" else rho)(n[which])
            n[which] += 1
            res.x = res.x * 0 + v
            rec["which"], rec["value"] = which, v
        elif rec["solver"] == "minimize":
            v = rho(n["rho"])
            n["rho"] += 1
            res.x = np.array(res.x, float)
            res.x[0] = v
            rec["which"], rec["value"] = "vec", np.array(res.x)
        else:
            x = np.array(res[0], float)
            v = rho(n["rho"])
            n["rho"] += 1
            x[0] = v
            rec["which"], rec["value"] = "lam", v
            res = (x,) + tuple(res[1:])
        return res
    return policy


def parts(m):
    sub = getattr(m, "multi", None)
    if isinstance(sub, dict) and sub and all(hasattr(v, "iteration") for v in sub.values()):
        return list(sub.values())
    return [m]


def last(m):
    return float(np.asarray(m.betas).ravel()[-1])


# ----------------------------------------------------------------------- runs


class Bad(Exception):
    pass


def bad(cls, msg):
    raise Bad(cls, msg)


def fit(spec, policy, budget=4000):
    case = work.build(spec)
    s = simsolver.Solver(policy, budget)
    with s:
        o = capture(case.call, snapshot=False)
    return case, o, s


def run(plan):
    spec, mode = plan["spec"], plan["mode"]
    est = spec["est"]
    probes = {k: 0 for k in MUST_HIT}
    info = {"probes": probes, "faults": {}, "n": 0, "log": []}
    kinds = {"mode": mode, "seq": plan["seq"], **{k: plan[k] for k in ("edge", "error", "at", "flag", "start", "maxiter", "m", "tol", "v") if k in plan}}
    try:
        with Steps(100000 if mode == "series" else JUMPS) as st:
            try:
                globals()["do_" + mode](plan, spec, est, info)
                res, d = "ok", None
            except Bad as e:
                res, d = e.args
            except (simsolver.Runaway, TooSlow) as e:
                res, d = "endless", "the estimation was still running after %s" % e
    finally:
        simsolver.CTL = None
    common = dict(sig=h([est, {k: v for k, v in spec["o"].items() if v}, kinds]), nontrivial=info["n"] > 0, log_hash=h([mode, info["n"], info["log"]]), steps=info["n"], probes=probes,
                  faults=info["faults"], sample={"call": est, "mode": mode, "solver": plan["seq"]["kind"], "solver calls": info["n"]})
    if d:
        return violation("C13:%s:%s:%s" % (mode, res, est), "%s: %s" % (est, d), facts={"call": est}, log=dict(kinds), **common)
    return ok(**common)


def note(info, s):
    info["n"] += len(s.calls)
    info["log"].append([(c["solver"], np.round(np.asarray(c.get("value", 0.0), float), 9).tolist()) for c in s.calls][:60])


def block_error(m, vals, init, max_iter, eps):
    """What is wrong with model m given the solver answers it consumed."""
    it = m.iteration
    if not 1 <= it <= max_iter:
        return "limit", "reports %d iterations, the limit is %d" % (it, max_iter)
    if len(vals) != init + it:
        return "count", "reports %d iterations, the solver was asked %d times in the loop" % (it, len(vals) - init)
    if not np.all(np.isfinite(vals)):
        stop = str(getattr(m, "iter_stop", ""))
        if it < max_iter and "Convergence" in stop:
            return "reason", "reports %r after iteration %d gave an undefined spatial parameter" % (stop, it)
        if hasattr(m, "betas") and np.isfinite(last(m)) and not np.isfinite(vals[-1]):
            return "estimate", "reports %.12g, the last iteration gave an undefined value" % last(m)
        return None
    d = [abs(vals[init - 1 + j] - vals[init - 2 + j]) for j in range(1, it + 1)]
    for j, v in enumerate(d[:-1]):
        if v <= eps:
            return "overrun", "went on after iteration %d moved the spatial parameter by %.3g (epsilon %g)" % (j + 1, v, eps)
    conv = d[-1] <= eps
    if it < max_iter and not conv:
        return "early", "stopped after %d of %d iterations although the last one moved the spatial parameter by %.3g (epsilon %g)" % (it, max_iter, d[-1], eps)
    stop = str(m.iter_stop) if hasattr(m, "iter_stop") else None
    if stop is not None:
        if it < max_iter and "Convergence" not in stop or it == max_iter and not conv and "Maximum" not in stop:
            return "reason", "reports %r after %d of %d iterations, last change %.3g" % (stop, it, max_iter, d[-1])
    if hasattr(m, "betas") and abs(last(m) - vals[-1]) > 1e-12:
        return "estimate", "reports %.12g, the last iteration gave %.12g" % (last(m), vals[-1])
    return None


def do_iterate(plan, spec, est, info):
    o, seq = spec["o"], plan["seq"]
    P = info["probes"]
    val = lambda i: simsolver.value(seq, i)
    m_it = o.get("max_iter", 1)
    eps = o.get("epsilon", 1e-5)
    case, out, s = fit(spec, lam_policy(val))
    note(info, s)
    if not out.ok:
        return
    P["iterate"] = 1
    P[seq["kind"]] = 1
    m = out.value
    subs = parts(m)
    one = dict(spec, o=dict(o, max_iter=1))
    _, out1, s1 = fit(one, lam_policy(val))
    if not out1.ok or len(s1.calls) % len(subs):
        return
    init = len(s1.calls) // len(subs) - 1
    if init < 1:
        return
    vals = [c["value"] for c in s.calls]
    if len(subs) > 1:
        P["regimes_separate"] = 1
        best = None
        for perm in itertools.islice(itertools.permutations(subs), 30):
            at, err = 0, None
            for x in perm:
                n = init + int(x.iteration)
                err = err or block_error(x, vals[at:at + n], init, m_it, eps)
                at += n
            if err is None and at != len(vals):
                err = "count", "the regimes report %d solver calls, there were %d" % (at, len(vals))
            best = best or err
            if err is None:
                break
        else:
            bad(*best)
        return
    err = block_error(m, vals, init, m_it, eps)
    if err:
        bad(*err)
    it = m.iteration
    P["limit" if it == m_it else "converged"] = 1
    if it >= 2:
        # a fresh fit that starts from the last but one estimate
        P["restart"] = 1
        fresh = [vals[-2]] * init + [vals[-1]]
        _, out2, s2 = fit(one, lam_policy(lambda i: fresh[min(i, init)]))
        if not out2.ok:
            bad("restart", "a fresh fit from the last but one iterate raised %s" % out2.emsg)
        for a in ("betas", "u", "predy", "vm", "sig2", "e_filtered"):
            if hasattr(m, a) and hasattr(out2.value, a):
                d = S.diff(S.snap(getattr(out2.value, a)), S.snap(getattr(m, a)), S.Tol(1e-7, 1e-9), a)
                if d:
                    bad("restart:%s" % where(d), "iteration %d does not start from the estimate of iteration %d: %s" % (it, it - 1, d))


def do_edge(plan, spec, est, info):
    o = spec["o"]
    case, out, s = fit(spec, lam_policy(lambda i: plan["edge"]))
    note(info, s)
    _, free, _ = fit(dict(spec, o=dict(o, hard_bound=False)), lam_policy(lambda i: plan["edge"]))
    if o["hard_bound"]:
        if out.ok:
            bad("accepted", "the solver returned %g, hard_bound=True, and the estimates were accepted" % plan["edge"])
        info["probes"]["edge_raise"] = 1
        if free.ok and "bound" not in out.emsg.lower():
            bad("message", "the bound was reached, but the error is %s: %s" % (out.etype, out.emsg[:120]))
    elif out.ok:
        info["probes"]["edge_warn"] = 1
        if abs(last(out.value) - plan["edge"]) > 1e-12:
            bad("estimate", "reports %g, the solver returned %g" % (last(out.value), plan["edge"]))


def do_error(plan, spec, est, info):
    exc = ERRORS[plan["error"]]
    mark = "simulated solver failure %d" % plan["salt"]
    hit = []

    def policy(when, rec, res):
        if when == "before" and rec["i"] == plan["at"]:
            hit.append(1)
            raise exc(mark)
        return res
    case, out, s = fit(spec, policy)
    note(info, s)
    if hit:
        info["probes"]["solver_error"] = 1
        info["faults"] = {"solver raises %s" % exc.__name__: 1}
        if out.ok:
            bad("swallowed", "the solver raised %s in its call %d and a model was returned" % (exc.__name__, plan["at"]))
        if out.etype != exc.__name__ or mark not in out.emsg:
            bad("changed", "the solver raised %s(%r), the caller got %s(%r)" % (exc.__name__, mark, out.etype, out.emsg[:120]))
    # the next fit on the same inputs is the fault-free one
    kw_case = work.build(spec, case.args) if work.EST[est].get("fn") is None else case
    again = capture(kw_case.call)
    clean = capture(work.build(spec).call)
    d = same(clean, again, S.Tol(1e-6, 1e-9), "result")
    if d:
        bad("retry:%s" % where(d), "after the failure, the same call: %s" % d)


def do_loop(plan, spec, est, info):
    P = info["probes"]
    if est == "SURerrorML":
        scale = lambda i: simsolver.value(plan["seq"], i) * 0.8
        pol = scalar_policy(lambda i: 0.5, scale)
        n = [0]

        def pol(when, rec, res):
            if when == "after" and rec["solver"] == "minimize":
                v = scale(n[0])
                n[0] += 1
                res.x = np.array(res.x, float) * 0 + v
                res.fun = float(rec_fun(rec, res)) + simsolver.value(plan["seq2"], n[0])
                rec["value"] = v
            return res

        def rec_fun(rec, res):
            return np.asarray(res.fun).ravel()[0] * 0
        case, out, s = fit(spec, pol, budget=600)
        note(info, s)
        if not out.ok:
            return
        P["loop"] = 1
        got = np.asarray(out.value.lamsur, float).ravel()
        vals = [c["value"] for c in s.calls if "value" in c]
        if vals and np.abs(got - vals[-1]).max() > 1e-12:
            bad("estimate", "reports %s, the solver's last answer was %g" % (got, vals[-1]))
        return
    phi = lambda i: min(0.97, max(0.03, 0.4 + simsolver.value(plan["seq"], i)))
    rho = lambda i: simsolver.value(plan["seq2"], i)
    case, out, s = fit(spec, scalar_policy(phi, rho), budget=600)
    note(info, s)
    if not out.ok:
        return
    P["loop"] = 1
    ph = [c["value"] for c in s.calls if c.get("which") == "phi"]
    rh = [c["value"] for c in s.calls if c.get("which") == "rho"]
    if not ph or not rh:
        return
    m = out.value
    for name, want in (("phi", ph[-1]), ("rho", rh[-1])):
        if hasattr(m, name) and abs(float(np.asarray(getattr(m, name)).ravel()[0]) - want) > 1e-12:
            bad("estimate", "reports %s=%s, the solver's last answer was %.12g" % (name, getattr(m, name), want))
    steps = [0.1] + ph
    moved = [abs(a - b) for a, b in zip(steps, steps[1:])]
    if len(ph) > 100:
        bad("limit", "%d rounds, the limit is 100" % len(ph))
    if moved[-1] > 1e-7 and len(ph) < 100:
        bad("early", "stopped after %d rounds while phi still moved by %.3g" % (len(ph), moved[-1]))
    if any(v <= 1e-7 for v in moved[:-1]):
        bad("overrun", "went on after phi had stopped moving")


class RefProbit:
    def __init__(self, y, x):
        self.y, self.x, self.q = y, x, 2 * y - 1

    def nll(self, b):
        return -float(np.sum(np.log(norm.cdf(self.q * (self.x @ np.reshape(b, (-1, 1)))))))

    def grad(self, b):
        z = self.q * (self.x @ np.reshape(b, (-1, 1)))
        l = self.q * norm.pdf(z) / norm.cdf(z)
        return (l.T @ self.x)[0]

    def hess(self, b):
        xb = self.x @ np.reshape(b, (-1, 1))
        l = self.q * norm.pdf(self.q * xb) / norm.cdf(self.q * xb)
        return self.x.T @ (self.x * (-l * (l + xb)))

    def newton(self, b, maxiter):
        for it in range(1, maxiter + 1):
            g = self.grad(b).reshape(-1, 1)
            step = -np.linalg.solve(self.hess(b), g)
            b = b + step
            m = float((g.T @ step).item())
            if m < 1e-4:
                break
        return b, it, m


def do_probit(plan, spec, est, info):
    o, P = spec["o"], info["probes"]
    k = spec["d"]["k"] + 1
    if plan["start"]:
        o = dict(o, bstart=plan["start"][:k])
    sp = dict(spec, o=o)
    flag = plan["flag"] if o["optim"] != "newton" else None

    def policy(when, rec, res):
        if when == "after" and flag is not None and rec["solver"] in ("fmin_bfgs", "fmin_ncg"):
            res = list(res)
            res[6 if rec["solver"] == "fmin_bfgs" else 5] = flag
            res[0] = np.array(res[0]) * 1.01
            rec["value"] = res[0]
            return tuple(res)
        return res
    case, out, s = fit(sp, policy)
    note(info, s)
    y = np.asarray(case.args["yb"], float).reshape(-1, 1)
    x = np.asarray(case.args["x"], float)
    x = np.hstack((np.ones((x.shape[0], 1)), x))
    R = RefProbit(y, x)
    start = np.array(o["bstart"], float).reshape(-1, 1) if o["bstart"] else np.linalg.solve(x.T @ x, x.T @ y)
    if not out.ok:
        return
    m = out.value
    if o["optim"] == "newton":
        with np.errstate(all="ignore"):
            b, it, crit = R.newton(start, o["maxiter"])
        P["newton"] = 1
        info["n"] += it
        if not np.all(np.isfinite(b)) or 1e-5 < abs(crit) < 1e-3 and abs(crit - 1e-4) < 1e-8:
            return
        d = S.diff(S.snap(b), S.snap(np.asarray(m.betas)), S.Tol(1e-6, 1e-8), "betas")
        if d:
            bad("iterate", "not the %d-th Newton iterate (maxiter %d): %s" % (it, o["maxiter"], d))
        if crit >= 1e-4:
            P["newton_unfinished"] = 1
            if not m.warning:
                bad("silent", "Newton stopped at its limit of %d iterations without converging and no warning is reported" % o["maxiter"])
        elif it < o["maxiter"] and m.warning:
            bad("warning", "Newton converged in %d of %d iterations and a warning is reported" % (it, o["maxiter"]))
        return
    P["flags"] = 1
    if flag is not None:
        info["faults"] = {"solver flag %d" % flag: 1}
        if bool(m.warning) != (flag > 0):
            bad("flag", "the solver's flag was %d, the model reports warning=%s" % (flag, m.warning))
        v = [c["value"] for c in s.calls if "value" in c][-1]
        if np.abs(np.asarray(m.betas).ravel() - np.asarray(v).ravel()).max() > 1e-12:
            bad("estimate", "the betas are not the ones the solver returned")
        return
    f0 = start.ravel()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if o["optim"] == "bfgs":
            r = op.fmin_bfgs(R.nll, f0, lambda b: -R.grad(b), maxiter=o["maxiter"], full_output=1, disp=0)
            want, wf = r[0], r[6]
        else:
            r = op.fmin_ncg(R.nll, f0, lambda b: -R.grad(b), fhess=lambda b: -R.hess(b), maxiter=o["maxiter"], full_output=1, disp=0)
            want, wf = r[0], r[5]
    info["n"] += 1
    if wf == 2 or not np.all(np.isfinite(want)):
        return
    if np.abs(np.asarray(m.betas).ravel() - want).max() > 1e-4 * (1 + np.abs(want).max()):
        bad("maxiter", "with maxiter=%d the betas are %s, the optimiser limited to %d iterations gives %s" % (o["maxiter"], np.asarray(m.betas).ravel(), o["maxiter"], want))
    if wf == 1 and not m.warning:
        bad("silent", "%s stopped at its limit of %d iterations and no warning is reported" % (o["optim"], o["maxiter"]))


def do_sur(plan, spec, est, info):
    o, P = spec["o"], info["probes"]
    case = work.build(spec)
    out = capture(case.call, snapshot=False)
    if not out.ok:
        return
    m = out.value
    y = {r: np.asarray(v, float).reshape(-1, 1) for r, v in m.bigy.items()}
    X = {r: np.asarray(v, float) for r, v in m.bigX.items()}
    ne, n = len(y), len(y[0])

    def est_(E):
        sig = E.T @ E / n
        si = np.linalg.inv(sig)
        A = np.block([[si[r, t] * (X[r].T @ X[t]) for t in range(ne)] for r in range(ne)])
        c = np.vstack([sum(si[r, t] * (X[r].T @ y[t]) for t in range(ne)) for r in range(ne)])
        b = np.linalg.solve(A, c)
        out_, at = {}, 0
        for r in range(ne):
            out_[r] = b[at:at + X[r].shape[1]]
            at += X[r].shape[1]
        return out_, sig
    res = lambda b: np.hstack([y[r] - X[r] @ b[r] for r in range(ne)])
    E = res({r: np.linalg.solve(X[r].T @ X[r], X[r].T @ y[r]) for r in range(ne)})
    b, sig = est_(E)
    E = res(b)
    d0, d1 = np.log(np.diag(sig)).sum(), np.linalg.slogdet(sig)[1]
    it, close = 0, False
    while abs(d1 - d0) > o["epsilon"] and it < o["maxiter"]:
        it += 1
        d0 = d1
        b, sig = est_(E)
        E = res(b)
        d1 = np.linalg.slogdet(sig)[1]
        close = close or abs(abs(d1 - d0) - o["epsilon"]) < max(1e-11, o["epsilon"] * 1e-4)
    P["sur"] = 1
    info["n"] += it
    info["log"].append(it)
    if m.niter > o["maxiter"]:
        bad("limit", "reports %d iterations, maxiter is %d" % (m.niter, o["maxiter"]))
    if close:
        return
    if it == o["maxiter"]:
        P["sur_limit"] = 1
    if m.niter != it:
        bad("count", "reports %d iterations, a reference iteration takes %d (maxiter %d, epsilon %g)" % (m.niter, it, o["maxiter"], o["epsilon"]))
    for r in range(ne):
        d = S.diff(S.snap(b[r]), S.snap(np.asarray(m.bSUR[r])), S.Tol(1e-6, 1e-8), "bSUR[%d]" % r)
        if d:
            bad("iterate", "not the estimates of iteration %d: %s" % (it, d))


def do_scalar(plan, spec, est, info):
    v = plan["v"]
    pol = scalar_policy(lambda i: 0.3 + abs(v[i % 12]) / 3, lambda i: v[i % 12])
    case, out, s = fit(spec, pol)
    note(info, s)
    if not out.ok:
        return
    vals = [c for c in s.calls if "value" in c]
    if not vals:
        return
    info["probes"]["scalar"] = 1
    m = out.value
    subs = parts_ml(m)
    got = []
    for x in subs:
        for a in ("lam", "rho"):
            if hasattr(x, a) and "ML" in est or hasattr(x, a) and "Panel" in est:
                got.append(float(np.asarray(getattr(x, a)).ravel()[0]))
                break
        else:
            got.append(last(x))
    want = [float(np.asarray(c["value"]).ravel()[0]) for c in vals]
    if len(subs) == 1:
        want = want[-1:]
    else:
        want = want[-len(subs):]
    if np.abs(np.sort(got) - np.sort(want)).max() > 1e-12:
        bad("estimate", "reports %s, the solver returned %s" % (got, want))
    eps = spec["o"].get("epsilon")
    if eps is not None and est in ("ML_Lag", "ML_Error"):
        for c in s.calls:
            t = c["kw"].get("tol")
            t = t if t is not None else (c["kw"].get("options") or {}).get("xatol")
            if t != eps:
                bad("tolerance", "epsilon=%g, the solver was given %s" % (eps, t))


def parts_ml(m):
    sub = getattr(m, "multi", None)
    if isinstance(sub, dict) and sub and all(hasattr(x, "betas") for x in sub.values()):
        return list(sub.values())
    return [m]


def do_nslx(plan, spec, est, info):
    flag = plan["flag"]
    spec = dict(spec, o=dict(spec["o"]))
    if plan["maxiter"]:
        spec["o"]["options"] = {"maxiter": plan["maxiter"]}

    def policy(when, rec, res):
        if when == "after" and rec["solver"] == "minimize":
            if flag is not None:
                res.success, res.status, res.message = flag, 0 if flag else 2, "simulated message %d" % plan["salt"]
            rec["value"] = 0.0
        return res
    case, out, s = fit(spec, policy)
    note(info, s)
    if not out.ok:
        return
    info["probes"]["nslx"] = 1
    m = out.value
    res = [c["res"] for c in s.calls if c["solver"] == "minimize"]
    if not res:
        return
    r = res[-1]
    for a in ("success", "status", "message", "nit"):
        if getattr(m, a, None) != r[a]:
            bad("report", "reports %s=%r, the solver returned %r" % (a, getattr(m, a, None), r[a]))
    if plan["maxiter"] and m.nit > plan["maxiter"]:
        bad("limit", "%d iterations, the limit in options is %d" % (m.nit, plan["maxiter"]))
    if abs(float(np.asarray(m.utu)) - float(r.fun)) > 1e-9 * (1 + abs(float(r.fun))):
        bad("estimate", "utu is %s, the solver's minimum was %s" % (m.utu, r.fun))


def do_series(plan, spec, est, info):
    from spreg import utils as U
    case = work.build(spec)
    w, x = case.args["w"], np.asarray(case.args["x"], float)
    if spec["d"]["wt"] != "r":
        w.transform = "r"
    rho, mx, tol = spec["o"]["rho"], plan["m"], plan["tol"]
    W = w.sparse.toarray()
    # truncated series
    A = W.T if plan["post"] else W
    total, inc, cnt = x.copy(), x.copy(), 0
    close = False
    while True:
        inc = A @ inc * rho
        total = total + inc
        cnt += 1
        nn = np.linalg.norm(inc)
        close = close or abs(nn - tol) < 1e-9 * tol
        if nn <= tol or (mx is not None and cnt >= mx):
            break
    out = capture(lambda: U.power_expansion(w, x, rho, post_multiply=plan["post"], threshold=tol, max_iterations=mx), snapshot=False)
    info["n"] += cnt
    info["log"].append(cnt)
    info["probes"]["series"] = 1
    if out.ok and not close:
        got = np.asarray(out.value)
        got = got.T if plan["post"] else got
        d = S.diff(S.snap(total), S.snap(got), S.Tol(1e-9, 1e-11), "series")
        if d:
            bad("series", "power_expansion(threshold=%g, max_iterations=%s) is not the sum of %d terms: %s" % (tol, mx, cnt, d))
    if plan.get("raw"):
        # weights that are not row-standardised: the series may diverge
        w.transform = "b"
        rho = plan["raw"]
        info["probes"]["diverging"] = int(abs(rho) * max(abs(np.linalg.eigvals(w.sparse.toarray()))) >= 1)
    full = capture(lambda: spreg.spmultiplier(w, rho, method="full"), snapshot=False)
    pw = capture(lambda: spreg.spmultiplier(w, rho, method="power", mtol=1e-9), snapshot=False)
    if full.ok and not pw.ok:
        bad("power", "spmultiplier power raised %s" % pw.emsg)
    if info["probes"].get("diverging"):
        return
    if full.ok and abs(full.value["adi"] - pw.value["adi"]) > 1e-6:
        bad("power", "spmultiplier stopped after power %d at %.9f, the limit is %.9f (rho %g)" % (pw.value["pow"], pw.value["adi"], full.value["adi"], rho))


def shrink(plan, res):
    for k in ("seq", "seq2"):
        if plan.get(k) and plan[k]["kind"] != "oscillate":
            yield dict(plan, **{k: dict(plan[k], kind="oscillate")})
    if plan["mode"] == "iterate" and plan["spec"]["o"].get("max_iter", 1) > 2:
        sp = dict(plan["spec"], o=dict(plan["spec"]["o"], max_iter=2))
        yield dict(plan, spec=sp)
    keep = {"iterate": ("max_iter", "epsilon"), "edge": ("hard_bound",), "probit": ("optim", "maxiter"), "sur": ("iter", "maxiter", "epsilon"), "series": ("rho",)}.get(plan["mode"], ())
    for s in shrink_spec(plan["spec"]):
        if all(s["o"].get(k) == plan["spec"]["o"].get(k) for k in keep):
            yield dict(plan, spec=s)
