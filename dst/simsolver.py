"""The numerical solvers of scipy.optimize behind a seam.

`install()` wraps the solver entry points before spreg imports them; with no
controller active they behave exactly as before.  An active `Solver` runs the
real solver and lets a policy replace what it returns: other parameter values,
other convergence flags, undefined values, or an error at a chosen call.
"""
import functools

import numpy as np
import scipy.optimize as op

CTL = None
NAMES = ["minimize", "minimize_scalar", "fmin_l_bfgs_b", "fmin_bfgs", "fmin_ncg", "fmin", "least_squares", "root", "brentq", "brent", "fminbound"]


class Runaway(BaseException):
    """The step budget of a simulated run is used up."""


class Solver:
    def __init__(self, policy=None, budget=4000):
        self.policy, self.budget, self.calls = policy, budget, []

    def __enter__(self):
        global CTL
        self.old, CTL = CTL, self
        return self

    def __exit__(self, *a):
        global CTL
        CTL = self.old

    def on(self, name, real, args, kw):
        i = len(self.calls)
        if i >= self.budget:
            raise Runaway("%d solver calls" % i)
        rec = {"i": i, "solver": name, "kw": {k: v for k, v in kw.items() if isinstance(v, (int, float, str, bool, tuple, list, dict, type(None)))}}
        self.calls.append(rec)
        if self.policy is not None:
            self.policy("before", rec, None)
        res = real(*args, **kw)
        if self.policy is not None:
            res = self.policy("after", rec, res)
        rec["res"] = res
        return res


def install():
    for name in NAMES:
        real = getattr(op, name)
        if getattr(real, "_dst_seam", False):
            continue

        def make(name, real):
            @functools.wraps(real)
            def solver(*args, **kw):
                if CTL is None:
                    return real(*args, **kw)
                return CTL.on(name, real, args, kw)
            solver._dst_seam = True
            return solver
        setattr(op, name, make(name, real))


# ------------------------------------------------------------------ sequences


def sequence(rng):
    """A recipe for the values an adversarial solver returns, call by call."""
    kind = rng.weighted([("oscillate", 4), ("geometric", 4), ("stall", 2), ("drift", 2), ("late", 2), ("wander", 2), ("undefined", 2)])
    return {"kind": kind, "c": round(rng.uniform(-0.4, 0.5), 3), "a": rng.pick([0.3, 0.1, 0.02]), "r": rng.pick([0.5, 0.1, 0.8]), "at": rng.randrange(2, 9), "salt": rng.randrange(1 << 20)}


def value(seq, i):
    k, c, a = seq["kind"], seq["c"], seq["a"]
    if k == "oscillate":
        return c + (a if i % 2 else -a)
    if k == "undefined":
        return float("nan") if i >= seq["at"] - 2 else c + (a if i % 2 else -a)
    if k == "geometric":
        return c + a * seq["r"] ** i
    if k == "stall":
        return c
    if k == "drift":
        # never settles, and stays inside the parameter space
        t = (i * 0.37) % 2
        return c + a * (t if t < 1 else 2 - t)
    if k == "late":
        return c + (a if i % 2 else -a) if i < seq["at"] else c
    g = np.random.Generator(np.random.PCG64([seq["salt"], i]))
    return c + a * float(g.uniform(-1, 1))
