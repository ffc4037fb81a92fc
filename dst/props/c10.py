"""C10: simulated data depend only on the generator passed in."""
import contextlib
import io
import random
import warnings

import numpy as np

import spreg
from spreg import dgp as D

from .. import work, sched, snap as S
from ..core import Rng, StepLimit
from ..session import isolated, EXC, h, ok, violation, where

COUNTS = {"quick": 1000, "thorough": 20000}
RULE = ("one run = one to four simulated-data programs, each with its own generator, stepped line by line by the seeded scheduler while a disturber draws from and reseeds the global generators "
        "(or, in quiet runs, while the global generators are watched), with interruptions and failing draws followed by a retry from the restored generator state; non-trivial when at least four "
        "data-generating calls completed; distinct by (programs, generator types, schedule, faults)")
REAL = ["all of spreg's data-generating functions, and fits on their output", "libpysal", "numpy generators"]
STUB = ["which stream runs next", "draws that fail"]
ASSUME = ["streams are switched between lines of spreg code; a draw itself is atomic"]
MUST_HIT = ["switched", "quiet", "noisy", "retried", "failed_draw", "vmult", "legacy_generator", "fit"]

BITS = ["PCG64", "Philox", "SFC64", "MT19937", "RandomState"]
OPS = ["error", "x", "vmult", "heterr", "wx", "ols", "slx", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns", "mess", "probit", "bin", "fit", "errproc"]


def gen(seed, i, tier):
    rng = Rng(seed, "C10", tier, i)
    streams = []
    for _ in range(rng.weighted([(1, 1), (2, 4), (3, 2), (4, 1)])):
        ops = []
        for _ in range(rng.randint(4, 12)):
            op = rng.pick(OPS)
            if rng.flip(0.35):
                op = rng.pick(["error", "x", "vmult"])
            ops.append({"op": op, "err": rng.pick(["normal", "laplace", "cauchy", "lognormal"]), "xm": rng.pick(["uniform", "normal", "bivnormal"]), "vm": rng.pick(["uniform", "linear", "uniform"]),
                        "model": rng.pick(["sar", "ma"]), "im": rng.pick(["power_exp", "true_inv"]), "ybin": rng.flip(0.3), "rho": rng.pick([0.2, 0.5]), "lam": rng.pick([0.2, 0.4]),
                        "mu": rng.pick([0, 0.5]), "var": rng.pick([1, 2.5]), "k": rng.pick([1, 2, 2, 3]), "cor": rng.pick([0, 0.5]), "est": rng.pick(["OLS", "GM_Lag", "GM_Error", "GM_Error_Het"])})
        streams.append({"bits": rng.pick(BITS), "seed": rng.randrange(1 << 30), "r": rng.pick([5, 6]), "c": rng.pick([5, 6]), "ops": ops})
    if len(streams) > 1 and rng.flip(0.3):
        # two streams with the same program from the same state
        streams[1] = dict(streams[0])
    mode = rng.pick(["quiet", "noisy", "noisy"])
    return {"streams": streams, "mode": mode, "share_w": rng.flip(0.5),
            "fault": {"kind": rng.weighted([(None, 3), ("interrupt", 2), ("draw", 2)]), "stream": rng.randrange(4), "op": rng.randrange(12), "at": rng.randint(1, 14),
                      "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "ValueError"])},
            "policy": {"kind": rng.pick(["uniform", "long", "pct", "first"]), "q": rng.pick([2, 5, 20, 80]), "seed": rng.randrange(1 << 30)}, "noise": rng.randrange(1 << 30)}


def make(bits, seed):
    if bits == "RandomState":
        return np.random.RandomState(seed % (1 << 31))
    return np.random.Generator(getattr(np.random, bits)(seed))


def state(g):
    return g.get_state() if isinstance(g, np.random.RandomState) else g.bit_generator.state


def restore(g, st):
    if isinstance(g, np.random.RandomState):
        g.set_state(st)
    else:
        g.bit_generator.state = st


class FailingDraw(Exception):
    pass


class Weak:
    """The caller's generator, whose k-th draw fails."""

    def __init__(self, g, k):
        self._g, self._k, self.n = g, k, 0

    def __getattr__(self, name):
        f = getattr(self._g, name)
        if not callable(f):
            return f

        def draw(*a, **k):
            self.n += 1
            if self.n == self._k:
                raise FailingDraw("simulated generator failure")
            return f(*a, **k)
        return draw


class Stream:
    def __init__(self, s, w):
        self.s, self.w = s, w
        self.g = make(s["bits"], s["seed"])
        self.n = w.n
        z = np.linspace(-1, 1, self.n).reshape(-1, 1)
        self.x, self.u, self.y = np.hstack((z, z ** 2)), z.copy(), None
        self.v = np.ones((self.n, 1))

    def one(self, o, g=None):
        """One call; returns what it produced.  State is kept only afterwards."""
        g = self.g if g is None else g
        n, w, x, u = self.n, self.w, self.x, self.u
        op = o["op"]
        if op == "error":
            return D.make_error(g, n, mu=o["mu"], varu=o["var"], method=o["err"])
        if op == "x":
            if o["xm"] == "bivnormal":
                return D.make_x(g, n, mu=[0, 1], varu=[1, o["var"]], cor=o["cor"], method="bivnormal")
            return D.make_x(g, n, mu=[0.5] * o["k"], varu=[o["var"]] * o["k"], method=o["xm"])
        if op == "vmult":
            return D.make_vmult(n, method=o["vm"], vlow=[1], vup=[4], rng=g)
        if op == "heterr":
            return D.make_heterror(u, self.v)
        k = x.shape[1]
        xb = D.make_xb(x, [1.0] + [0.5] * k)
        if op == "wx":
            return D.make_wx(x, w, 2)
        wxg = D.make_wxg(D.make_wx(x, w), [0.3] * k)
        if op == "ols":
            return D.dgp_ols(u, xb)
        if op == "slx":
            return D.dgp_slx(u, xb, wxg, ybin=o["ybin"])
        if op == "sperror":
            return D.dgp_sperror(u, xb, w, lam=o["lam"], model=o["model"], imethod=o["im"], ybin=o["ybin"])
        if op == "slxerror":
            return D.dgp_slxerror(u, xb, wxg, w, lam=o["lam"], model=o["model"], imethod=o["im"], ybin=o["ybin"])
        if op == "lag":
            return D.dgp_lag(u, xb, w, rho=o["rho"], imethod=o["im"], ybin=o["ybin"])
        if op == "spdurbin":
            return D.dgp_spdurbin(u, xb, wxg, w, rho=o["rho"], imethod=o["im"], ybin=o["ybin"])
        if op == "lagerr":
            return D.dgp_lagerr(u, xb, w, rho=o["rho"], lam=o["lam"], model=o["model"], imethod=o["im"], ybin=o["ybin"])
        if op == "gns":
            return D.dgp_gns(u, xb, wxg, w, rho=o["rho"], lam=o["lam"], model=o["model"], imethod=o["im"], ybin=o["ybin"])
        if op == "mess":
            return D.dgp_mess(u, xb, w, rho=o["rho"])
        if op == "probit":
            return D.dgp_probit(u, xb)
        if op == "bin":
            return D.make_bin(xb + u)
        if op == "errproc":
            return D.dgp_errproc(u, w, lam=o["lam"], model=o["model"], imethod=o["im"])
        y = self.y if self.y is not None else xb + u
        m = getattr(spreg, o["est"])(y, x, w)
        return m.betas

    def keep(self, o, v):
        op = o["op"]
        if v is None or isinstance(v, tuple):
            return
        if op == "error":
            self.u = v
        elif op == "x":
            self.x = v
        elif op == "vmult":
            self.v = v
        elif op == "heterr":
            self.u = v
        elif op in ("ols", "lag", "sperror", "gns", "lagerr") and not o["ybin"]:
            self.y = v

    def go(self, fault=None, log=None):
        out = []
        for j, o in enumerate(self.s["ops"]):
            if fault and j == fault["op"] % len(self.s["ops"]):
                st = state(self.g)
                g = Weak(self.g, 1 + fault["at"] % 2) if fault["kind"] == "draw" else None
                try:
                    if fault["kind"] == "interrupt":
                        lf = sched.LineFault(fault["at"], EXC[fault["exc"]])
                        with lf:
                            self.one(o)
                    else:
                        self.one(o, g)
                except (KeyboardInterrupt, Exception) as e:
                    if log is not None:
                        log.append((fault["kind"], type(e).__name__, o["op"]))
                # the user puts the generator back and repeats the call
                restore(self.g, st)
            try:
                v = self.one(o)
            except Exception as e:
                v = ("raises", type(e).__name__)
            self.keep(o, v)
            out.append((o["op"], v))
        return out


def frozen(s, r):
    return [(op, S.snap(v)) for op, v in r], S.snap(state(s.g))


def solo(st, w, seed):
    np.random.seed(seed % (1 << 31))
    random.seed(seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        s = Stream(st, w)
        return frozen(s, s.go())


class Disturb:
    """Uses and reseeds the global generators every time control changes hands."""

    def __init__(self, seed, noisy):
        self.rng, self.noisy, self.n = Rng("c10noise", seed), noisy, 0
        self.other = np.random.default_rng(seed)
        np.random.seed(seed % (1 << 31))
        random.seed(seed)
        self.first = self.now()
        self.bad = None

    @staticmethod
    def now():
        st = np.random.get_state()
        return (st[1].tobytes(), st[2], st[3], st[4], random.getstate(), id(np.random.mtrand._rand))

    def __call__(self, sc):
        if self.bad is None and self.now() != self.first:
            self.bad = sc.switch_sites[-1][1:] if sc and sc.switch_sites else ("?", 0)
        if self.noisy:
            self.n += 1
            k = self.rng.randrange(5)
            if k == 0:
                np.random.normal(size=self.rng.randint(1, 50))
            elif k == 1:
                np.random.seed(self.rng.randrange(1 << 31))
            elif k == 2:
                [random.random() for _ in range(self.rng.randint(1, 9))]
            elif k == 3:
                self.other.normal(size=7)
            self.first = self.now()


def run(plan):
    streams, mode, fault = plan["streams"], plan["mode"], plan["fault"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ws = [work.make_w("rook", s["r"], s["c"], "r", None) for s in streams]
    if plan["share_w"]:
        for s in streams[1:]:
            s["r"], s["c"] = streams[0]["r"], streams[0]["c"]
        ws = [ws[0]] * len(ws)
    refs = [isolated(lambda j=j: solo(streams[j], ws[j], plan["noise"] + 17 * j)) for j in range(len(streams))]
    probes = {k: 0 for k in MUST_HIT}
    probes[mode] = 1
    probes["vmult"] = int(any(o["op"] == "vmult" and o["vm"] == "uniform" for s in streams for o in s["ops"]))
    probes["fit"] = int(any(o["op"] == "fit" for s in streams for o in s["ops"]))
    probes["legacy_generator"] = int(any(s["bits"] == "RandomState" for s in streams))
    faults, flog = {}, []
    objs = [Stream(s, w) for s, w in zip(streams, ws)]
    dist = Disturb(plan["noise"], mode == "noisy")
    fj = fault["stream"] % len(streams) if fault["kind"] else None
    alone = fj is not None and fault["kind"] == "interrupt"
    stuck, segs, sites, steps = None, [], [], 0
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        if alone:
            # an interruption and the scheduler would both want the trace hook
            res = []
            for j, s in enumerate(objs):
                res.append(s.go(fault if j == fj else None, flog))
                dist(None)
        else:
            sc = sched.Scheduler(plan["policy"], max_steps=6_000_000)
            sc.invariant = dist
            ths = [sc.spawn(lambda s=s, j=j: s.go(fault if j == fj else None, flog)) for j, s in enumerate(objs)]
            try:
                sc.run()
            except StepLimit as e:
                stuck = str(e)
            segs, steps, sites = sc.segments, sc.steps, sc.switch_sites
            faults["preemption"] = sc.switches
            probes["switched"] = int(sc.switches > 1)
            err = [t.error for t in ths if t.error is not None]
            res = [t.result for t in ths]
            if err and not stuck:
                raise err[0]
    for kind, e, op in flog:
        faults["%s (%s)" % (kind, e)] = faults.get("%s (%s)" % (kind, e), 0) + 1
        probes["retried"] = 1
        probes["failed_draw"] |= int(e == "FailingDraw")
    calls = sum(len(s["ops"]) for s in streams)
    common = dict(sig=h([streams, segs[:200], fault]), nontrivial=calls >= 4, log_hash=h([segs[:2000], sites[:200], flog]), steps=steps, probes=probes, faults=faults,
                  sample={"streams": [[s["bits"], [o["op"] for o in s["ops"]]] for s in streams], "mode": mode, "fault": flog[:2], "disturbances": dist.n})
    log = {"segments": segs[:2000]}

    def bad(cls, msg):
        r = violation("C10:" + cls, msg, facts={"mode": mode}, log=log, **common)
        r["segments"] = segs
        return r
    if stuck:
        return bad("stuck", stuck)
    for j, (s, r) in enumerate(zip(objs, res)):
        rf, gst = refs[j]
        got, gs = frozen(s, r)
        for (op, a), (_, b), o in zip(rf, got, s.s["ops"]):
            d = S.diff(a, b, S.EXACT, op)
            if d:
                return bad("differs:%s" % op, "stream %d of %d (%s, %s): %s gave other data than alone from the same generator state%s: %s" % (
                    j, len(objs), s.s["bits"], mode, op, " after a retry" if j == fj else "", d))
        d = S.diff(gst, gs, S.EXACT, "generator")
        if d:
            return bad("generator", "stream %d (%s): the generator ends in another state than after the same calls alone: %s" % (j, s.s["bits"], d))
    if dist.bad:
        return bad("global", "a global random generator was used (last seen at %s:%s)" % tuple(dist.bad))
    return ok(**common)


def shrink(plan, res):
    st = plan["streams"]
    if len(st) > 1:
        for j in range(len(st)):
            yield dict(plan, streams=st[:j] + st[j + 1:])
    if plan["fault"]["kind"]:
        yield dict(plan, fault=dict(plan["fault"], kind=None))
    if plan["mode"] == "noisy":
        yield dict(plan, mode="quiet")
    for j, s in enumerate(st):
        for k in range(len(s["ops"])):
            if len(s["ops"]) > 1:
                yield dict(plan, streams=st[:j] + [dict(s, ops=s["ops"][:k] + s["ops"][k + 1:])] + st[j + 1:])
    if plan["policy"]["kind"] not in ("serial", "replay"):
        yield dict(plan, policy={"kind": "serial"})
