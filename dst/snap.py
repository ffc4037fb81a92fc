"""Canonical deep snapshots of values, and a tolerant structural comparison.

`snap(x)` copies everything observable about a value into plain containers, so
that later mutation of `x` cannot change the snapshot; `diff(a, b)` returns
None or a description of the first difference.
"""
import re
import numbers
import types

import numpy as np
import pandas as pd
import scipy.sparse as SP
from libpysal import weights as _weights

_ADDR = re.compile(r" at 0x[0-9a-f]+")
MAXDEPTH = 14


def _arr(a):
    if a.dtype == object:
        return ("oarr", a.shape, [snap(v) for v in a.ravel().tolist()])
    if a.dtype.kind in "US":
        return ("sarr", a.shape, a.tolist())
    return ("arr", a.dtype.kind, np.array(a, copy=True))


#: libpysal builds some subsets' neighbour lists in set order; with False the
#: order inside a neighbour list does not count
W_ORDER = True


def _nb(w, k):
    nb, wt = list(w.neighbors[k]), [float(t) for t in w.weights[k]]
    if not W_ORDER:
        o = sorted(range(len(nb)), key=lambda j: str(nb[j]))
        nb, wt = [nb[j] for j in o], [wt[j] for j in o]
    return nb, wt


def snap_w(w):
    sp = SP.csr_matrix(w.sparse)
    return (
        "W",
        type(w).__name__,
        str(getattr(w, "transform", None)),
        list(w.id_order),
        {k: _nb(w, k)[0] for k in w.neighbors},
        {k: _nb(w, k)[1] for k in w.weights},
        snap(sp),
    )


def snap(x, depth=0, seen=None):
    if seen is None:
        seen = {}
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, numbers.Number):
        return ("num", complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x))
    if depth > MAXDEPTH:
        return ("deep", type(x).__name__)
    if id(x) in seen:
        return ("ref", seen[id(x)])
    seen = dict(seen)
    seen[id(x)] = len(seen)
    d = depth + 1
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", _arr(np.asarray(x.data)), np.array(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return _arr(np.asarray(x))
    if SP.issparse(x):
        c = SP.coo_matrix(x)
        o = np.lexsort((c.col, c.row))
        return ("sparse", c.shape, c.row[o].tolist(), c.col[o].tolist(), np.array(c.data[o]))
    if isinstance(x, _weights.WSP):
        return ("WSP", snap(x.sparse, d, seen), snap(x.id_order, d, seen))
    if isinstance(x, _weights.W):
        return snap_w(x)
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], snap(list(x.index), d, seen),
                [str(t) for t in x.dtypes] if len(x.columns) else [],
                [snap(list(x.iloc[:, j]), d, seen) for j in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("series", str(x.name), snap(list(x.index), d, seen), str(x.dtype), snap(list(x), d, seen))
    if isinstance(x, pd.Index):
        return ("index", snap(list(x), d, seen))
    if isinstance(x, tuple):
        return ("tuple", [snap(v, d, seen) for v in x])
    if isinstance(x, list):
        return ("list", [snap(v, d, seen) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((repr(v) for v in x)))
    if isinstance(x, dict):
        return ("dict", [(repr(k) if not isinstance(k, str) else k, snap(v, d, seen)) for k, v in x.items()])
    if isinstance(x, type) or isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)):
        return ("callable", getattr(x, "__qualname__", getattr(x, "__name__", "?")))
    if isinstance(x, np.ufunc) or callable(x) and not hasattr(x, "__dict__"):
        return ("callable", type(x).__name__)
    if type(x).__module__.startswith("spreg") or hasattr(x, "__dict__"):
        out = []
        for k in sorted(vars(x)):
            if k.startswith("_"):
                continue
            out.append((k, snap(vars(x)[k], d, seen)))
        return ("obj", type(x).__name__, out)
    return ("repr", _ADDR.sub("", repr(x)))


def properties(cls):
    names = set()
    for c in cls.__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and not k.startswith("_"):
                names.add(k)
    return sorted(names)


def read_prop(m, name):
    """Value of a lazily computed attribute, or the error reading it raises."""
    try:
        return snap(getattr(m, name))
    except Exception as e:  # an unavailable attribute is an observable answer too
        return ("raises", type(e).__name__)


def snap_model(m):
    """Everything a user can read off a fitted model: public attributes of the
    model and of its nested models, and their computed properties."""
    base = snap(m)
    props = [(p, read_prop(m, p)) for p in properties(type(m))]
    subs = []
    multi = vars(m).get("multi") if hasattr(m, "__dict__") else None
    if isinstance(multi, dict):
        for r in multi:
            sm = multi[r]
            subs.append((repr(r), [(p, read_prop(sm, p)) for p in properties(type(sm))]))
    return ("model", base, props, subs)


_NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf")


def text_diff(a, b, atol=2.5e-3, rtol=1e-3):
    if a == b:
        return None
    na, nb = _NUM.findall(a), _NUM.findall(b)
    sa, sb = (re.sub(r"[\s-]+", " ", _NUM.sub(" # ", t)) for t in (a, b))
    if sa != sb:
        la, lb = a.splitlines(), b.splitlines()
        for i in range(max(len(la), len(lb))):
            u = la[i] if i < len(la) else "<end>"
            v = lb[i] if i < len(lb) else "<end>"
            if re.sub(r"[\s-]+", " ", _NUM.sub(" # ", u)) != re.sub(r"[\s-]+", " ", _NUM.sub(" # ", v)):
                return "text line %d: %r != %r" % (i + 1, u[:120], v[:120])
        return "text differs"
    for u, v in zip(na, nb):
        if u == v:
            continue
        fu, fv = float(u), float(v)
        if fu != fu and fv != fv:
            continue
        if not abs(fu - fv) <= atol + rtol * max(abs(fu), abs(fv)):
            return "number in text: %s != %s" % (u, v)
    return None


class Tol:
    def __init__(self, rtol=1e-6, atol=1e-9):
        self.rtol, self.atol = rtol, atol


EXACT = Tol(0.0, 0.0)


def _numdiff(a, b, tol, path):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "%s: shape %s != %s" % (path, a.shape, b.shape)
    if a.size == 0:
        return None
    if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
        return None if (a == b).all() else "%s: values differ" % path
    if tol.rtol == 0 and tol.atol == 0:
        ok = (a == b) | ((a != a) & (b != b))
    else:
        with np.errstate(all="ignore"):
            fa, fb = a.astype(complex), b.astype(complex)
            fin = np.isfinite(fa) & np.isfinite(fb)
            scale = np.abs(fa[fin]).max() if fin.any() else 0.0
            # absolute slack follows the array's own scale: entries that are
            # rounding noise next to the rest carry no information
            ok = np.abs(fa - fb) <= tol.atol + tol.rtol * np.maximum(np.abs(fa), np.abs(fb)) + tol.rtol * 1e-2 * scale
            ok = ok | (fa == fb) | ((fa != fa) & (fb != fb))
    if ok.all():
        return None
    i = int(np.argmin(ok.ravel()))
    return "%s: %r != %r at flat index %d" % (path, a.ravel()[i].item(), b.ravel()[i].item(), i)


def diff(a, b, tol, path="result"):
    """First difference between two snapshots, or None."""
    if isinstance(a, str) and isinstance(b, str):
        if tol.rtol == 0 and tol.atol == 0:
            return None if a == b else "%s: %r != %r" % (path, a[:160], b[:160])
        d = text_diff(a, b)
        return None if d is None else "%s: %s" % (path, d)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str):
        ta, tb = a[0], b[0]
        if ta != tb:
            return "%s: kind %s != %s" % (path, _short(a), _short(b))
        if ta == "num":
            return _numdiff(a[1], b[1], tol, path)
        if ta == "arr":
            if a[1] != b[1] and not (tol.rtol or tol.atol):
                return "%s: dtype kind %s != %s" % (path, a[1], b[1])
            return _numdiff(a[2], b[2], tol, path)
        if ta == "sparse":
            if a[1] != b[1]:
                return "%s: sparse shape differs" % path
            if a[2] == b[2] and a[3] == b[3]:
                return _numdiff(a[4], b[4], tol, path)
            A = SP.coo_matrix((a[4], (a[2], a[3])), shape=a[1]).toarray()
            B = SP.coo_matrix((b[4], (b[2], b[3])), shape=b[1]).toarray()
            return _numdiff(A, B, tol, path)
        if ta in ("obj", "dict"):
            la, lb = a[-1], b[-1]
            if ta == "obj" and a[1] != b[1]:
                return "%s: type %s != %s" % (path, a[1], b[1])
            ka, kb = [k for k, _ in la], [k for k, _ in lb]
            if ka != kb:
                if sorted(ka) == sorted(kb) and ta == "dict":
                    if not tol.rtol == 0:
                        lb = sorted(lb, key=lambda t: ka.index(t[0]))
                        return diff((ta, la), (ta, lb), tol, path)
                extra = sorted(set(kb) - set(ka))
                miss = sorted(set(ka) - set(kb))
                return "%s: names differ (missing %s, extra %s)%s" % (path, miss[:6], extra[:6], "" if extra or miss else " order")
            for (k, va), (_, vb) in zip(la, lb):
                d = diff(va, vb, tol, path + "." + k)
                if d:
                    return d
            return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return "%s: keys differ" % path
        for k in a:
            d = diff(a[k], b[k], tol, "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            nm = "%s[%d]" % (path, i)
            if isinstance(u, tuple) and len(u) == 2 and isinstance(u[0], str) and isinstance(v, tuple) and len(v) == 2 and u[0] == v[0] and u[0] not in ("num", "list", "tuple"):
                nm = "%s.%s" % (path, u[0])
                d = diff(u[1], v[1], tol, nm)
            else:
                d = diff(u, v, tol, nm)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return _numdiff(a, b, tol, path)
    if isinstance(a, float) and isinstance(b, float):
        return _numdiff(a, b, tol, path)
    return None if a == b else "%s: %s != %s" % (path, _short(a), _short(b))


def _short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."
