"""What the parallel-fit properties (C01, C02, C03) share."""
import copy

from .. import work, simpool
from ..session import capture

LAGSEP = ("GM_Lag_Regimes", "GM_Lag_kw_regimes", "ML_Lag_kw_regimes", "ML_Lag_Regimes", "GM_Combo_Regimes", "GM_Combo_Het_Regimes", "GM_Combo_Hom_Regimes")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "pickling of arguments and results", "fork memory isolation (memory=fork/pristine runs)"]
STUB = ["multiprocessing.Pool / concurrent.futures executors (process start, task queue, result delivery, timing)"]


def gen_spec(rng, est, sep=0.93, plain=0.35):
    f = {"cores": False}
    if rng.flip(sep):
        f["regime_err_sep"] = True
        f["cols2regi"] = "all"
        f["constant_regi"] = "many"
        if est in LAGSEP:
            f["regime_lag_sep"] = True
        f["robust"] = rng.weighted([(None, 4), ("white", 4), ("ogmm", 3), ("hac", 1)]) if "robust" in work.EST[est]["opts"] else None
        if f["robust"] == "ogmm" and "ogmm" not in work.EST[est]["opts"].get("robust", []):
            f["robust"] = "white"
        f = {k: v for k, v in f.items() if k in work.EST[est]["opts"]}
    spec = work.sample(rng, est, plain=plain, **f)
    for k in ("regime_err_sep", "regime_lag_sep"):
        if k in f:
            spec["o"][k] = True
    if "epsilon" in spec["o"]:
        # a stopping tolerance far from the default shows in the estimates
        spec["o"]["epsilon"] = rng.pick([spec["o"]["epsilon"], 1e-2, 1e-3])
    return spec


class Parallel:
    """The outcome of spec with cores=True in a simulated world."""

    def __init__(self, spec, cfg, cores=True):
        ps = copy.deepcopy(spec)
        ps["o"]["cores"] = cores
        self.hung = self.interrupted = None
        self.out = None
        with simpool.running(cfg) as w:
            self.world = w
            self.case = work.build(ps)
            try:
                self.out = capture(self.case.call)
            except simpool.SimHang as e:
                self.hung = str(e)
            except KeyboardInterrupt as e:
                self.interrupted = e
            # workers told to stop finish what they run; the rest stay
            while w.step():
                pass
            self.live = w.live_workers()
            self.owned = [p.index for p in w.pools if p.workers_alive()]


def opts(spec):
    return {k: v for k, v in spec["o"].items() if not isinstance(v, bool) or v}


def shrink_world(plan):
    w = plan["world"]
    if w["memory"] != "inline":
        yield dict(plan, world=dict(w, memory="inline"))
    if w["ncpu"] != 1:
        yield dict(plan, world=dict(w, ncpu=1))
    for j in range(len(w["faults"])):
        if len(w["faults"]) > 1:
            yield dict(plan, world=dict(w, faults=w["faults"][:j] + w["faults"][j + 1:]))
