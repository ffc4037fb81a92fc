"""C14: reading model data from a data source fails loudly, never partially."""
import contextlib
import copy
import errno
import io
import struct
import warnings

import numpy as np
import pandas as pd

import spreg
from spreg import panel_utils

from .. import work, snap as S
from ..core import Rng
from ..session import capture, isolated, Frozen, h, ok, violation, shrink_spec

COUNTS = {"quick": 4000, "thorough": 90000}
RULE = ("one run = a table of uniquely numbered cells behind a simulated source (a data frame, an object with [] only, with by_col only, with both, or libpysal's own DBF reader on a simulated disk) that "
        "fails, comes back short, repeats, reorders or loses rows or columns, or changes under the reader at a seeded read; sur_dictxy, sur_dictZ, the panel preparation or an estimator reads it; the outcome "
        "must be exactly the columns asked for or an error, then a retry and a read of a second table must be complete; non-trivial when the fault-free read succeeded; distinct by (reader, format, source, "
        "fault, position)")
REAL = ["all of spreg", "libpysal's DBF reader", "pandas", "numpy"]
STUB = ["the table's storage: read errors, short reads, lost and repeated rows and columns"]
ASSUME = ["a source that answers every read consistently with a shorter table is indistinguishable from a shorter table",
          "values that the source itself reports as missing (None) may be handed on as such"]
MUST_HIT = ["dictxy", "dictZ", "long_form", "panel", "estimator", "raised", "complete", "retry", "second_table", "dbf", "frame", "interrupt", "fallback"]

PASS = ["AttributeError", "IndexError", "KeyError", "TypeError", "ValueError"]
ERRS = PASS + ["OSError", "TimeoutError", "MemoryError", "KeyboardInterrupt", "EOFError"]
SILENT = ["short", "short_all", "long", "empty", "twice", "shift"]
SOURCES = ["frame", "item", "bycol", "both", "dbf", "both"]


def mkexc(name):
    cls = {"OSError": lambda: OSError(errno.EIO, "simulated read error"), "TimeoutError": lambda: TimeoutError(errno.ETIMEDOUT, "simulated timeout")}
    if name in cls:
        return cls[name]()
    return getattr(__import__("builtins"), name)("simulated " + name)


# ---------------------------------------------------------------------- plans


def gen(seed, i, tier):
    rng = Rng(seed, "C14", tier, i)
    mode = rng.weighted([("cross", 5), ("long", 4), ("panel", 3), ("estimator", 3)])
    if mode in ("cross", "long"):
        n, t = rng.pick([3, 4, 7]), rng.pick([2, 2, 3])
        src = rng.pick(SOURCES)
        kind = rng.weighted([(None, 2), ("error", 5), ("silent", 4), ("rows", 3 if mode == "long" else 1), ("missing", 1)])
        f = {"kind": kind, "at": rng.weighted([(1, 3), (2, 3), (3, 2), (4, 2), (5, 1), (6, 1), (8, 1)]), "times": rng.pick([1, 1, 2, 99]), "exc": rng.pick(ERRS), "how": rng.pick(SILENT),
             "m": rng.pick([1, 1, 2]), "row": rng.randrange(1 << 20), "row2": rng.randrange(1 << 20), "rowkind": rng.pick(["lost", "repeated", "changed", "lost_unit_row", "swap_id", "lost_time"]),
             "byte": rng.randrange(1 << 20)}
        return {"mode": mode, "reader": rng.pick(["dictxy", "dictZ"]), "n": n, "t": t, "src": src, "fault": f, "k": [rng.pick([1, 2, 3]) for _ in range(t)], "const": rng.flip(), "order": rng.randrange(1 << 30),
                "ids": rng.pick(["int", "str", "gap", "float"]), "share": rng.flip(0.2)}
    if mode == "panel":
        return {"mode": mode, "n": rng.pick([3, 4, 5]), "r": 4, "t": rng.pick([2, 3, 4]), "k": rng.pick([1, 2, 3]), "wide": rng.flip(0.7), "pd": rng.flip(), "names": rng.flip(), "const": rng.pick([True, True, False]),
                "fault": rng.pick([None, "lost_col", "extra_col", "lost_rows", "extra_rows", "double_rows", "const_col", "const_col", "const_two", "y_lost_rows", "y_double_rows", "swap"]), "at": rng.randrange(1 << 20), "at2": rng.randrange(1 << 20),
                "via": rng.pick(["prepare", "prepare", "PooledOLS", "PanelFE", "ML_LagFE", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "panel_LMlag", "panel_rLMerror", "panel_LMerror", "panel_rLMlag"]), "seed": rng.randrange(1 << 30)}
    ests = [e for e in work.ALL if "fn" not in work.EST[e] and not work.EST[e].get("slow")]
    est = ests[(i * 7 + rng.randrange(3)) % len(ests)]
    force = {"cores": False} if "cores" in work.EST[est]["opts"] else {}
    spec = work.sample(rng, est, plain=0.8, **force)
    return {"mode": mode, "spec": spec, "arg": rng.randrange(1 << 20), "how": rng.weighted([("short", 4), ("long", 3), ("empty", 1), ("lost_col", 0), ("nan", 1), ("half", 1)]), "eq": rng.randrange(1 << 20)}


# --------------------------------------------------------------------- tables


class Table:
    """Columns of uniquely numbered cells; `base` tells tables apart."""

    def __init__(self, names, rows, base=0):
        self.names = list(names)
        self.cols = {c: [float(base + 1000 * (j + 1) + r) for r in range(rows)] for j, c in enumerate(self.names)}

    def rows(self):
        return len(self.cols[self.names[0]])

    def take(self, idx):
        t = copy.copy(self)
        t.cols = {c: [v[i] for i in idx] for c, v in self.cols.items()}
        return t


class Reads:
    """The fault plan as a counter of read operations."""

    def __init__(self, f, tab):
        self.f, self.tab, self.n, self.hits, self.kinds, self.exc = f, tab, 0, 0, {}, None
        self.armed = f["kind"] in ("error", "silent")

    def _hit(self, what):
        self.hits += 1
        self.kinds[what] = self.kinds.get(what, 0) + 1

    def due(self):
        self.n += 1
        f = self.f
        return self.armed and f["at"] <= self.n < f["at"] + f["times"]

    def column(self, name, data):
        if not self.due():
            return data
        f = self.f
        if f["kind"] == "error":
            self._hit("read error: " + f["exc"])
            self.exc = mkexc(f["exc"])
            raise self.exc
        how, m = f["how"], min(f["m"], len(data) - 1)
        if how == "short_all":
            f["times"] = 10 ** 6
        self._hit("bad answer: " + how)
        if how in ("short", "short_all"):
            return data[: len(data) - m]
        if how == "long":
            return data + data[:m]
        if how == "empty":
            return data[:0]
        if how == "twice":
            return [[v, v] for v in data]
        return data[:-1] if len(data) > 1 else []


class Item:
    def __init__(self, reads):
        self._r = reads

    def __getitem__(self, name):
        t = self._r.tab
        if name not in t.cols:
            raise KeyError(name)
        return self._r.column(name, list(t.cols[name]))


class ByCol:
    """As libpysal's data tables: text in [] is a TypeError, columns by by_col."""

    def __init__(self, reads):
        self._r = reads

    def __getitem__(self, name):
        raise TypeError("index should be int or slice")

    @property
    def by_col(self):
        return self._get

    def _get(self, name):
        t = self._r.tab
        if name not in t.cols:
            raise AttributeError("Field: %s does not exist in header." % name)
        return self._r.column(name, list(t.cols[name]))


class Both(Item):
    def by_col(self, name):
        return Item.__getitem__(self, name)


class Frame(pd.DataFrame):
    """A data frame whose column reads go through the fault plan."""
    _metadata = ["_r"]

    def __getitem__(self, name):
        v = pd.DataFrame.__getitem__(self, name)
        r = getattr(self, "_r", None)
        if r is None:
            return v
        raw = v.tolist()
        got = r.column(name, raw)
        if got is raw:
            return v
        if got is None or not isinstance(got, list):
            return got
        if got and isinstance(got[0], list):
            return pd.DataFrame(got)
        return pd.Series(got)


class SimFile:
    """A read-only file on a simulated disk."""

    def __init__(self, data, reads=None):
        self.data, self.pos, self.reads, self.cut = data, 0, reads, None

    def seek(self, i, whence=0):
        self.pos = i + (self.pos if whence == 1 else len(self.data) if whence == 2 else 0)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        data = self.data
        r = self.reads
        if r is not None and r.due():
            f = r.f
            if f["kind"] == "error":
                r._hit("disk error: " + f["exc"])
                r.exc = mkexc(f["exc"])
                raise r.exc
            # the file is truncated under the reader
            r._hit("disk: file truncated while being read")
            self.cut = self.pos
            f["times"] = 10 ** 6
        end = len(data) if n < 0 else self.pos + n
        if self.cut is not None:
            end = min(end, max(self.cut, self.pos))
            if self.pos >= self.cut:
                end = self.pos
        out = data[self.pos:end]
        self.pos += len(out)
        return out

    def close(self):
        pass


def dbf(reads):
    """libpysal's own reader over an in-memory .dbf."""
    from libpysal.io.iohandlers import pyDbfIO
    t = reads.tab
    spec = [("C", 6, 0) if isinstance(t.cols[c][0], str) else ("N", 14, 3) for c in t.names]
    out = struct.pack("<BBBBLHH20x", 3, 100, 1, 1, t.rows(), len(t.names) * 32 + 33, sum(s[1] for s in spec) + 1)
    for c, (ty, size, deci) in zip(t.names, spec):
        out += struct.pack("<11sc4xBB14x", c.ljust(11, "\0").encode(), ty.encode(), size, deci)
    out += b"\r"
    for i in range(t.rows()):
        out += b" "
        for c, (ty, size, deci) in zip(t.names, spec):
            v = t.cols[c][i]
            out += (v.ljust(size) if ty == "C" else ("%14.3f" % v)).encode()
    f = SimFile(out + b"\x1a")
    real = pyDbfIO.__dict__.get("open")
    pyDbfIO.open = lambda *a, **k: f
    try:
        db = pyDbfIO.DBF("simulated.dbf", "r")
    finally:
        if real is None:
            del pyDbfIO.open
        else:
            pyDbfIO.open = real
    f.reads = reads
    return db


def source(kind, reads):
    if kind == "item":
        return Item(reads)
    if kind == "bycol":
        return ByCol(reads)
    if kind == "both":
        return Both(reads)
    if kind == "dbf":
        return dbf(reads)
    fr = Frame(dict(reads.tab.cols))
    fr._r = reads
    return fr


# ------------------------------------------------------------------ reference


def arr(cols):
    return np.array(cols, dtype=float).T.reshape(-1, len(cols))


def ref_cross(tab, plan, yv, xv):
    n = tab.rows()
    one = np.ones((n, 1))
    cols = lambda v: arr([tab.cols[c] for c in v])
    if plan["reader"] == "dictxy":
        return ({r: cols([yv[r]]) for r in range(len(yv))}, {r: np.hstack((one, cols(xv[r]))) for r in range(len(yv))}, {r: yv[r] for r in range(len(yv))},
                {r: ["Constant_%d" % (r + 1)] + list(xv[r]) for r in range(len(yv))})
    c = plan["const"]
    return ({r: np.hstack((one, cols(xv[r]))) if c else cols(xv[r]) for r in range(len(xv))}, {r: (["Constant_%d" % (r + 1)] if c else []) + list(xv[r]) for r in range(len(xv))})


class Unbalanced(Exception):
    pass


def ref_long(tab, plan, xv, tname, sname):
    """Every (unit, period) cell once: units in order of appearance, periods sorted."""
    units, cells = [], {}
    for i in range(tab.rows()):
        s, t = tab.cols[sname][i], tab.cols[tname][i]
        if s not in units:
            units.append(s)
        if (t, s) in cells and [tab.cols[c][i] for c in ["y"] + xv] != [tab.cols[c][cells[t, s]] for c in ["y"] + xv]:
            raise Unbalanced
        cells[t, s] = i
    times = sorted({t for t, _ in cells})
    if len(cells) != len(units) * len(times):
        raise Unbalanced
    bigy, bigX, yn, xn = {}, {}, {}, {}
    const = plan["const"] if plan["reader"] == "dictZ" else True
    for r, t in enumerate(times):
        lab = str(t) if plan["reader"] == "dictxy" else str(int(t))
        idx = [cells[t, s] for s in units]
        bigy[r] = arr([[tab.cols["y"][i] for i in idx]])
        X = arr([[tab.cols[c][i] for i in idx] for c in xv])
        bigX[r] = np.hstack((np.ones((len(idx), 1)), X)) if const else X
        yn[r] = "y_" + lab
        xn[r] = [c + "_" + lab for c in (["Constant"] if const else []) + xv]
    return (bigy, bigX, yn, xn) if plan["reader"] == "dictxy" else (bigX, xn)


def differ(got, want):
    """None, or what in `got` is not what was asked for.  A cell the source
    reported as missing may be None/nan but nothing else."""
    if not isinstance(got, tuple) or len(got) != len(want):
        return "result is not a %d-tuple" % len(want)
    for d, (a, b) in enumerate(zip(got, want)):
        if sorted(a) != sorted(b):
            return "equations %s instead of %s" % (sorted(a), sorted(b))
        for r in b:
            if isinstance(b[r], np.ndarray):
                x = np.asarray(a[r])
                if x.shape != b[r].shape:
                    return "part %d, equation %d has shape %s instead of %s" % (d, r, x.shape, b[r].shape)
                for i, u in np.ndenumerate(b[r]):
                    v = x[i]
                    if v is None or isinstance(v, float) and np.isnan(v):
                        continue
                    try:
                        good = float(v) == u
                    except (TypeError, ValueError):
                        good = False
                    if not good:
                        return "part %d, equation %d, cell %s is %r instead of %r" % (d, r, i, v, u)
            elif list(a[r]) != list(b[r]) if isinstance(b[r], list) else a[r] != b[r]:
                return "names of equation %d are %r instead of %r" % (r, a[r], b[r])
    return None


def missing(got):
    return any(v is None or isinstance(v, float) and np.isnan(v) for d in got for a in d.values() if isinstance(a, np.ndarray) for v in a.ravel())


def read(f):
    """-> (value, exception)"""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            return f(), None
        except (Exception, KeyboardInterrupt) as e:
            return None, e


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def run_dict(plan):
    long = plan["mode"] == "long"
    n, t = plan["n"], plan["t"]
    xv_all = ["x%d" % j for j in range(6)]
    rng = Rng("C14 table", plan["order"])
    if long:
        names, rows = ["y"] + xv_all + ["sid", "tid"], n * t
    else:
        names, rows = ["y%d" % r for r in range(t)] + xv_all, n

    def table(base):
        tab = Table(names, rows, base)
        if long:
            cells = [(s, p) for p in range(t) for s in range(n)]
            rng2 = Rng("C14 order", plan["order"] if base == 0 else base)
            rng2.shuffle(cells)
            if plan["order"] % 3 == 0:
                cells.sort()
            lab = {"int": lambda p: 1960 + 10 * p, "gap": lambda p: 5 + 3 * p, "float": lambda p: 1960.0 + p, "str": lambda p: "%d" % (1960 + p)}[plan["ids"]]
            sl = {"int": lambda s: 27000 + 7 * s, "gap": lambda s: 900 - 13 * s, "float": lambda s: float(s + 1), "str": lambda s: "u%d" % s}[plan["ids"]]
            tab.cols["sid"] = [sl(s) for s, _ in cells]
            tab.cols["tid"] = [lab(p) for _, p in cells]
            if plan["src"] == "dbf":
                # what the file format hands back for numbers
                tab.cols["sid"] = [v if isinstance(v, str) else float(v) for v in tab.cols["sid"]]
                tab.cols["tid"] = [v if isinstance(v, str) else float(v) for v in tab.cols["tid"]]
        return tab
    if long:
        xv = [xv_all[j] for j in range(plan["k"][0])]
        yv = ["y"]
        zz = [list(xv)]
    else:
        yv = ["y%d" % r for r in range(t)]
        zz = [rng.sample(xv_all, plan["k"][r]) for r in range(t)]
        if plan["share"]:
            zz = [zz[0]] * t
    f = copy.deepcopy(plan["fault"])
    tab0 = table(0)
    tab = tab0
    kind = f["kind"]
    if kind == "rows":
        idx = list(range(rows))
        a, b = f["row"] % rows, f["row2"] % rows
        rk = f["rowkind"]
        if rk in ("lost", "lost_unit_row"):
            del idx[a]
            tab = tab0.take(idx)
        elif rk in ("repeated", "changed"):
            idx.insert(b, a)
            tab = tab0.take(idx)
            if rk == "changed":
                for c in names:
                    if c not in ("sid", "tid"):
                        tab.cols[c][b] += 0.5
        elif rk == "swap_id" and long:
            # a unit's identifier read as another's: one cell twice, another never
            tab = tab0.take(idx)
            tab.cols["sid"][a] = tab.cols["sid"][b]
        elif rk == "lost_time" and long:
            tab = tab0.take(idx)
            tab.cols["tid"][a] = tab.cols["tid"][b]
        else:
            kind = None
    want_names = yv + [c for z in zz for c in z]
    if kind == "missing":
        gone = want_names[f["row"] % len(want_names)] if plan["reader"] == "dictxy" else [c for z in zz for c in z][f["row"] % sum(len(z) for z in zz)]
        tab = tab0.take(range(rows))
        tab.names = [c for c in tab.names if c != gone]
        del tab.cols[gone]
    yargs, xargs = copy.deepcopy(yv), copy.deepcopy(zz)
    if plan["share"] and not long:
        xargs = [xargs[0]] * t

    def call(db):
        if plan["reader"] == "dictxy":
            if long:
                return spreg.sur_dictxy(db, yargs, xargs, space_id=["sid"], time_id=["tid"])
            return spreg.sur_dictxy(db, yargs, xargs)
        if long:
            return spreg.sur_dictZ(db, xargs, form="plm", const=plan["const"], space_id=["sid"], time_id=["tid"])
        return spreg.sur_dictZ(db, xargs, form="spreg", const=plan["const"])

    def ref(tb):
        return ref_long(tb, plan, zz[0], "tid", "sid") if long else ref_cross(tb, plan, yv, zz)
    quiet = {"kind": None, "at": 0, "times": 0}
    label = "%s of a %s table" % (plan["reader"], "long" if long else "wide")
    probes = {k: 0 for k in MUST_HIT}
    probes[plan["reader"]] = 1
    if long:
        probes["long_form"] = 1
    if plan["src"] in probes:
        probes[plan["src"]] = 1
    reads = Reads(f, tab)
    db = source(plan["src"], reads)
    got, exc = read(lambda: call(db))
    common = dict(sig=h([plan["reader"], long, plan["src"], kind, f.get("exc") if kind == "error" else f.get("how") if kind == "silent" else f.get("rowkind"), f["at"], f["times"] > 1, plan["const"], t, plan["k"]]),
                  nontrivial=True, steps=reads.n, probes=probes, faults=dict(reads.kinds), log_hash=h([str(type(exc)), reads.n, reads.hits]),
                  sample={"reader": plan["reader"], "form": plan["mode"], "source": plan["src"], "fault": {k: f[k] for k in ("kind", "at", "times")}, "outcome": "returned" if exc is None else type(exc).__name__})
    if kind in ("rows", "missing"):
        common["faults"] = {"table: " + (f["rowkind"] if kind == "rows" else "column missing"): 1}

    def bad(cls, msg):
        return violation("C14:%s:%s:%s" % (cls, plan["reader"], plan["mode"]), "%s from a source of kind %s, fault %s: %s" % (
            label, plan["src"], {k: f[k] for k in ("kind", "at", "times", "exc", "how", "rowkind") if k in f}, msg), facts={"reader": plan["reader"]}, log={}, **common)
    if exc is not None:
        probes["raised"] = 1
        if reads.exc is not None:
            if isinstance(reads.exc, KeyboardInterrupt):
                probes["interrupt"] = 1
            # the source's error is the one raised, or is what the one raised reports as its cause
            if f["exc"] not in PASS and exc is not reads.exc:
                return bad("error", "the source raised %r, the caller got %r" % (reads.exc, exc))
            if reads.exc not in chain(exc):
                return bad("error", "the source's %r is lost; the caller got %r" % (reads.exc, exc))
        elif not reads.hits and kind in (None, "error", "silent"):
            return bad("healthy", "the source was healthy, the call raised %r" % exc)
        elif not reads.hits and kind == "rows":
            try:
                ref(tab)
            except Unbalanced:
                pass
            else:
                if f["rowkind"] not in ("repeated",) and not (not long):
                    return bad("healthy", "the table is complete, the call raised %r" % exc)
    else:
        probes["complete"] = 1
        if reads.exc is not None:
            probes["fallback"] = 1
        try:
            want = ref(tab)
        except Unbalanced:
            return bad("partial", "rows are lost or contradictory, the call returned data for %s" % {r: a.shape for r, a in got[0].items()})
        except KeyError:
            return bad("partial", "a column asked for does not exist, the call returned data")
        d = differ(got, want)
        if d and kind == "silent" and f["how"] != "twice" and plan["src"] != "dbf" and reads.hits == reads.n - f["at"] + 1:
            # indistinguishable from a shorter or longer table when every column read was short or long alike
            # (read anew through the second interface, if the first read was found to be ragged)
            m = min(f["m"], rows - 1)
            idx = list(range(rows))
            idx = {"short": idx[: rows - m], "short_all": idx[: rows - m], "shift": idx[: rows - 1], "empty": [], "long": idx + idx[:m]}[f["how"]]
            try:
                d = differ(got, ref(tab.take(idx)))
            except (Unbalanced, KeyError):
                pass
        if d:
            return bad("partial", "returned without an error, but %s" % d)
        if not reads.hits and missing(got):
            return bad("partial", "missing cells were made up")
    if yargs != yv or xargs != zz:
        return bad("inputs", "the lists of names were changed to %r %r" % (yargs, xargs))
    # the fault is over: the same source, then another one
    probes["retry"] = int(bool(reads.hits))
    reads.armed = False
    if plan["src"] == "dbf":
        db.f.cut = None
    if kind in (None, "error", "silent"):
        again, exc = read(lambda: call(db))
        if exc is not None:
            return bad("retry", "a retry after the fault raised %r" % exc)
        d = differ(again, ref(tab0))
        if d or missing(again):
            return bad("retry", "a retry after the fault: %s" % (d or "cells are missing"))
    tab2 = table(500000)
    probes["second_table"] = 1
    other, exc = read(lambda: call(source(plan["src"], Reads(dict(quiet), tab2))))
    if exc is not None:
        return bad("second", "reading another table raised %r" % exc)
    d = differ(other, ref(tab2))
    if d:
        return bad("second", "reading another table: %s" % d)
    return ok(**common)


# ---------------------------------------------------------------------- panel


def run_panel(plan):
    n, t, k, r = plan["n"] * plan["r"], plan["t"], plan["k"], plan["r"]
    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    w = work.make_w("rook", plan["n"], r, "r", None)
    x = g.normal(size=(t, n, k))
    y = x.sum(axis=2) + g.normal(size=(t, n)) + g.normal(size=n)
    fault = plan["fault"]
    if fault in ("const_col", "const_two"):
        # a regressor that has the same value everywhere in some period
        x[plan["at"] % t, :, plan["at"] // 7 % k] = 1.0
        if fault == "const_two":
            x[plan["at2"] % t, :, plan["at2"] // 7 % k] = 1.0

    def lng(a):
        return a.reshape(t * n, -1).copy()
    if plan["wide"]:
        Y = y.T.copy()
        X = np.hstack([x[:, :, j].T for j in range(k)])
    else:
        Y, X = lng(y), lng(x)
    # variables and periods need not come in alphabetical order
    L = Rng("labels", plan["seed"])
    vl, pl = list("abcdef"), [0, 1, 2, 3, 9, 10]
    L.shuffle(vl)
    if L.flip(0.7):
        L.shuffle(pl)
    xn = ["v%s%d" % (vl[j], pl[s]) for j in range(k) for s in range(t)] if plan["wide"] else ["v" + vl[j] for j in range(k)]
    yn = ["dep%d" % pl[s] for s in range(t)] if plan["wide"] else ["dep"]
    broken = True
    a = plan["at"]
    if fault == "lost_col":
        j = a % X.shape[1]
        if X.shape[1] == 1:
            broken = False
        else:
            X, xn = np.delete(X, j, 1), xn[:j] + xn[j + 1:]
            broken = plan["wide"] and X.shape[1] % t != 0
            if not broken:
                fault = None
                if not plan["wide"]:
                    x = np.delete(x, j, 2)
                else:
                    return ok(nontrivial=False, sig="x", log_hash="", steps=0, probes={}, faults={}, sample={})
    elif fault == "extra_col":
        if plan["wide"] and (X.shape[1] + 1) % t and X.shape[0] > X.shape[1]:
            j = a % X.shape[1]
            X, xn = np.insert(X, j, X[:, j], 1), xn[:j] + [xn[j]] + xn[j:]
        else:
            broken = False
    elif fault == "lost_rows":
        X = X[:-1]
    elif fault == "extra_rows":
        X = np.vstack((X, X[:1]))
    elif fault == "double_rows":
        # every row delivered twice: the weights know how many units there are
        X, Y = np.vstack((X, X)), np.vstack((Y, Y))
        broken = plan["wide"]
        if not broken:
            return ok(nontrivial=False, sig="x", log_hash="", steps=0, probes={}, faults={}, sample={})
    elif fault == "y_lost_rows":
        X, Y = X[:-1], Y[:-1]
    elif fault == "y_double_rows":
        Y = np.vstack((Y, Y))
    else:
        broken = False
    args = {"y": Y, "x": X, "w": w, "name_y": None, "name_x": None}
    if plan["pd"]:
        args["y"], args["x"] = pd.DataFrame(Y, columns=yn), pd.DataFrame(X, columns=xn if len(set(xn)) == len(xn) else ["c%d" % j for j in range(len(xn))])
        if L.flip():
            for z in ("y", "x"):
                args[z].index = np.arange(len(args[z]))[::-1]
    elif plan["names"] and fault in (None, "const_col", "const_two", "swap"):
        args["name_x"], args["name_y"] = list(xn), list(yn)
    via = plan["via"]
    diag = via.startswith("panel_")
    ref_args = {"y": lng(y), "x": lng(x), "w": work.make_w("rook", plan["n"], r, "r", None), "name_y": "dep" if args["name_y"] or plan["pd"] else None,
                "name_x": (list(xn) if not plan["wide"] else ["v" + vl[j] for j in range(k)]) if args["name_x"] or plan["pd"] else None}

    def go(q):
        if via == "prepare":
            return lambda: panel_utils.prepare_panel(q["y"], q["x"], q["w"], q["name_y"], q["name_x"], 0, "All", "t", add_constant=plan["const"])
        f = getattr(spreg, via)
        if diag:
            return lambda: f(q["y"], q["x"], q["w"])
        return lambda: f(q["y"], q["x"], q["w"], name_y=q["name_y"], name_x=q["name_x"])
    before = {z: S.snap(v) for z, v in args.items() if z in ("y", "x")}
    got = capture(go(args), snapshot=False)
    ref = capture(go(ref_args), snapshot=False)
    probes = {z: 0 for z in MUST_HIT}
    probes["panel"] = 1
    probes["raised" if not got.ok else "complete"] = 1
    common = dict(sig=h([via, plan["wide"], fault, plan["pd"], args["name_x"] is not None, t, k]), nontrivial=ref.ok, steps=1, probes=probes, faults={"panel: " + fault: 1} if fault else {}, log_hash=h([got.ok, got.etype]),
                  sample={"reader": via, "wide": plan["wide"], "fault": fault, "outcome": got.brief()[:60]})

    def bad(cls, msg):
        return violation("C14:%s:%s:%s" % (cls, "prepare_panel" if via == "prepare" else via, fault), "%s on %s data (%d units, %d periods, %d regressors), fault %s: %s" % (
            via, "wide" if plan["wide"] else "long", n, t, k, fault, msg), facts={"reader": via}, log={}, **common)
    for z in before:
        d = S.diff(before[z], S.snap(args[z]), S.EXACT, z)
        if d:
            return bad("inputs", "the caller's data were changed: " + d)
    if broken:
        if got.ok:
            return bad("partial", "accepted without an error")
        return ok(**common)
    if not ref.ok:
        return ok(**common)
    if not got.ok:
        # constant columns of a single period are no fault: the long form of the same data is accepted
        return bad("healthy", "the same data in long form are accepted, here the call raised %s: %s" % (got.etype, got.emsg[:150]))
    v, u = got.value, ref.value
    if via == "prepare":
        pairs = [("y", v[0], u[0]), ("x", v[1], u[1]), ("periods", v[10], u[10]), ("names", v[3], u[3])]
        if args["name_x"] is None and not plan["pd"]:
            pairs[3] = ("number of names", len(v[3]), len(u[3]))
    elif diag:
        pairs = [("statistic", v, u)]
    else:
        pairs = [("betas", v.betas, u.betas), ("vm", v.vm, u.vm), ("u", v.u, u.u), ("y", v.y, u.y)]
    for what, p, q in pairs:
        d = S.diff(S.snap(p), S.snap(q), S.Tol(1e-5, 1e-7), what)
        if d:
            return bad("partial", "differs from the same data in long form: %s" % d)
    return ok(**common)


# ------------------------------------------------------------------ estimator


def resize(v, how, eq):
    """The same argument as a faulty source delivers it; None if not applicable."""
    def cut(a):
        m = a.shape[0]
        if how == "short":
            return a[: m - 1]
        if how == "half":
            return a[: m // 2]
        if how == "long":
            return np.concatenate((a, a[:1]))
        if how == "empty":
            return a[:0]
        if how == "nan":
            b = a.astype(float)
            b[eq % m] = np.nan
            return b
    if isinstance(v, pd.DataFrame):
        return pd.DataFrame(cut(v.to_numpy()), columns=v.columns)
    if isinstance(v, pd.Series):
        if how == "nan" and v.dtype == object:
            return None
        return pd.Series(cut(v.to_numpy()), name=v.name)
    if isinstance(v, np.ndarray):
        if how == "nan" and v.dtype.kind not in "fiu":
            return None
        return cut(v)
    if isinstance(v, list):
        if how == "nan":
            return None
        return v[:-1] if how == "short" else v[: len(v) // 2] if how == "half" else v + v[:1] if how == "long" else []
    if isinstance(v, dict):
        r = sorted(v)[eq % len(v)]
        d = dict(v)
        d[r] = cut(v[r])
        return d
    return None


DATA = ["y", "yb", "x", "yend", "q", "regimes", "coords", "bigy", "bigX", "bigyend", "bigq"]


def run_est(plan):
    spec = plan["spec"]
    est = spec["est"]
    case = work.build(spec)
    names = [a for a in DATA if a in case.args]
    arg = names[plan["arg"] % len(names)]
    how = plan["how"]
    if how == "nan" and arg in ("regimes", "coords", "bigy", "bigX", "bigyend", "bigq"):
        how = "short"
    broken = resize(case.args[arg], how, plan["eq"])
    if broken is None:
        how = "short"
        broken = resize(case.args[arg], how, plan["eq"])

    def attempt():
        c = work.build(spec)
        return Frozen(capture(c.call, snapshot=False))

    healthy = isolated(lambda: _light(attempt()))
    args = work.make_args(spec)
    args[arg] = broken
    got = capture(work.build(spec, args).call, snapshot=False)
    probes = {z: 0 for z in MUST_HIT}
    probes["estimator"] = 1
    probes["raised" if not got.ok else "complete"] = 1
    common = dict(sig=h([est, arg, how, spec["o"].get("_form"), spec["o"].get("_wide")]), nontrivial=healthy[0], steps=1, probes=probes, faults={"argument %s: %s" % ("arrived short" if how in ("short", "half", "empty") else how, arg): 1},
                  log_hash=h([got.ok, got.etype]), sample={"reader": est, "argument": arg, "fault": how, "outcome": got.brief()[:60]})
    if healthy[0] and got.ok:
        return violation("C14:accepted:%s:%s" % (est, arg), "%s was given %s with %s and returned a model" % (
            est, arg, {"short": "its last row missing", "half": "half its rows missing", "long": "a row repeated", "empty": "no rows", "nan": "an unreadable value"}[how]), facts={"reader": est}, log={}, **common)
    return ok(**common)


def _light(o):
    return (o.ok, o.etype, o.emsg)


def run(plan):
    m = plan["mode"]
    if m in ("cross", "long"):
        return run_dict(plan)
    if m == "panel":
        return run_panel(plan)
    return run_est(plan)


def shrink(plan, res):
    m = plan["mode"]
    if m in ("cross", "long"):
        f = plan["fault"]
        if plan["t"] > 2:
            yield dict(plan, t=2, k=plan["k"][:2])
        if plan["n"] > 3:
            yield dict(plan, n=3)
        for s in ("item", "both"):
            if plan["src"] != s:
                yield dict(plan, src=s)
        if max(plan["k"]) > 1:
            yield dict(plan, k=[1] * len(plan["k"]))
        if f["times"] > 1:
            yield dict(plan, fault=dict(f, times=1))
        if f["at"] > 1:
            yield dict(plan, fault=dict(f, at=1))
            yield dict(plan, fault=dict(f, at=f["at"] - 1))
        if plan["ids"] != "int":
            yield dict(plan, ids="int")
    elif m == "panel":
        for k, v in (("pd", False), ("names", False), ("t", 2), ("k", 1), ("n", 3), ("via", "prepare")):
            if plan[k] != v:
                yield dict(plan, **{k: v})
    else:
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
