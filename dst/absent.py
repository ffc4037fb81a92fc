"""Simulated absence of libraries: names that cannot be imported, or whose
import dies half way, and scipy functions an older scipy does not have."""
import importlib.abc
import importlib.machinery
import sys
import types

ALL = ["tqdm", "numba", "numexpr", "bottleneck", "matplotlib", "statsmodels", "seaborn", "bokeh", "folium", "llvmlite"]
BLOCKED, HITS = set(), {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in BLOCKED or name in BLOCKED:
            HITS[top] = HITS.get(top, 0) + 1
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


def before(names):
    for n in names:
        if n == "all":
            BLOCKED.update(ALL)
        elif n == "metadata":
            import importlib.metadata as M
            real = M.version

            def version(d):
                if d == "spreg":
                    raise M.PackageNotFoundError(d)
                return real(d)
            M.version = version
        elif n == "tqdm+":
            sys.modules["tqdm"] = fake_tqdm()
        elif n not in ("sklearn",) and not n.startswith("scipy"):
            BLOCKED.add(n)
    sys.meta_path.insert(0, Finder())


def late(names):
    """Once the harness has scipy as it needs it, and before spreg is imported."""
    import scipy.optimize
    for n in names:
        if n.startswith("scipy:"):
            delattr(scipy.optimize, n[6:])
        if n in ("all", "sklearn"):
            # libpysal itself cannot be imported without scikit-learn, so the
            # library is there by now; what spreg asks it for is not
            import sklearn.metrics
            del sklearn.metrics.euclidean_distances
            HITS["sklearn.metrics.euclidean_distances"] = 1


def fake_tqdm():
    """tqdm is not installed here: a stand-in with its interface."""
    m = types.ModuleType("tqdm")
    m.fail_at, m.used = None, 0

    class tqdm:
        def __init__(self, iterable=None, desc=None, **kw):
            m.used += 1
            self.it, self.desc = iterable, desc

        def __iter__(self):
            for n, x in enumerate(self.it):
                if m.fail_at is not None and n >= m.fail_at:
                    raise OSError(5, "simulated: progress bar cannot be drawn")
                yield x
    m.tqdm = tqdm
    return m
