"""Helpers shared by the properties: quiet calls, outcomes, reports."""
import contextlib
import hashlib
import io
import json
import re
import sys
import warnings

import numpy as np

from . import snap as S
from . import work

_ADDR = re.compile(r"0x[0-9a-f]+")


class Outcome:
    """What a call did: returned a value (snapshotted) or raised."""
    __slots__ = ("ok", "value", "snap", "error", "etype", "emsg", "out", "warns")

    def brief(self):
        return "returned" if self.ok else "raised %s: %s" % (self.etype, self.emsg[:160])


def capture(f, snapshot=True, model=True):
    """Run f() with stdout and warnings captured."""
    o = Outcome()
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with contextlib.redirect_stdout(buf):
                o.value = f()
            o.ok, o.error, o.etype, o.emsg = True, None, None, None
        except Exception as e:
            o.value, o.ok, o.error = None, False, e
            o.etype, o.emsg = type(e).__name__, _ADDR.sub("0x", str(e))
    o.out = buf.getvalue()
    o.warns = sorted({(w.category.__name__, str(w.message)[:200]) for w in ws
                      if w.category in (UserWarning, RuntimeWarning) or issubclass(w.category, UserWarning)})
    o.snap = None
    if o.ok and snapshot:
        o.snap = value_snap(o.value)
    return o


def value_snap(v):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        if v is not None and type(v).__module__.startswith("spreg"):
            return S.snap_model(v)
        return S.snap(v)


def fit(spec, share=None):
    case = work.build(spec, share)
    return case, capture(case.call)


def same(a, b, tol, what="result"):
    """None if the two outcomes are equal up to tol, else a description."""
    if a.ok != b.ok:
        return "%s: one %s, the other %s" % (what, a.brief(), b.brief())
    if not a.ok:
        if a.etype != b.etype:
            return "%s: raised %s instead of %s" % (what, b.etype, a.etype)
        return None
    return S.diff(a.snap, b.snap, tol, what)


def inputs_snap(args):
    return {k: S.snap(v) for k, v in args.items() if k not in ("reg_in",)}


def inputs_diff(before, args, path="inputs"):
    after = inputs_snap(args)
    for k in before:
        d = S.diff(before[k], after[k], S.EXACT, "argument %s" % k)
        if d:
            return d
    return None


def h(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def ok(**kw):
    r = {"outcome": "ok"}
    r.update(kw)
    return r


def violation(vclass, message, **kw):
    r = {"outcome": "violation", "vclass": vclass, "message": message}
    r.update(kw)
    return r


_NOISE = re.compile(r"\[[^\]]*\]|\d+")


def where(d):
    """The attribute a difference was found at, without indices: the part of a
    difference that stays the same while a failing case is being shrunk."""
    return _NOISE.sub("", d.split(":")[0])[:80]


def shrink_spec(spec):
    """Simpler specs: one option at a time back to its plain value."""
    import copy
    E = work.EST[spec["est"]]
    for k in sorted(spec["o"]):
        plain = {"_endog": False, "_names": False, "_form": "np"}.get(k)
        if k in E["opts"]:
            ch = E["opts"][k]
            plain = "All" if ch == [work.SLXV] else ch[0]
        if k in ("cores",) or spec["o"][k] == plain or plain is None and k not in E["opts"]:
            continue
        s = copy.deepcopy(spec)
        s["o"][k] = plain
        if k == "cols2regi" or k == "_endog":
            s["o"]["cols2regi"] = "all" if "cols2regi" in s["o"] else s["o"].pop("cols2regi", None)
            if s["o"].get("cols2regi") is None:
                s["o"].pop("cols2regi", None)
        yield s
    for k, v in (("scatter", False), ("w", "rook"), ("wt", "r"), ("reg", "str"), ("k", 2)):
        if spec["d"].get(k, v) != v and not (k == "k" and (isinstance(spec["o"].get("slx_vars"), list) or isinstance(spec["o"].get("cols2regi"), list))):
            s = copy.deepcopy(spec)
            s["d"][k] = v
            yield s


def raw(f):
    """capture() for simulated caller threads: touches no process-wide state."""
    o = Outcome()
    o.out, o.warns, o.snap = "", [], None
    try:
        o.value = f()
        o.ok, o.error, o.etype, o.emsg = True, None, None, None
    except Exception as e:
        o.value, o.ok, o.error = None, False, e
        o.etype, o.emsg = type(e).__name__, _ADDR.sub("0x", str(e))
    return o


def finish(o):
    if o.ok and o.snap is None:
        o.snap = value_snap(o.value)
    return o


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated Ctrl-C"),
    "MemoryError": lambda: MemoryError("simulated allocation failure"),
    "LinAlgError": lambda: np.linalg.LinAlgError("simulated solver failure"),
    "ValueError": lambda: ValueError("simulated failure"),
}


def faulted(f, at, exc, max_steps=None):
    """Run f() with exception `exc` striking at its at-th step inside spreg.
    Returns (Outcome, LineFault); any exception becomes part of the outcome."""
    from . import sched
    o = Outcome()
    o.warns, o.snap = [], None
    buf = io.StringIO()
    lf = sched.LineFault(at, EXC[exc] if exc else None, max_steps=max_steps)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with contextlib.redirect_stdout(buf), lf:
                o.value = f()
            o.ok, o.error, o.etype, o.emsg = True, None, None, None
        except (Exception, KeyboardInterrupt) as e:
            o.value, o.ok, o.error = None, False, e
            o.etype, o.emsg = type(e).__name__, _ADDR.sub("0x", str(e))
    o.out = buf.getvalue()
    return o, lf


def survey(f):
    """Fault-free traced run: the steps of f inside spreg, by site."""
    from . import sched
    lf = sched.LineFault(record=True)
    o = Outcome()
    with lf:
        o2 = None
        buf = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
            warnings.simplefilter("ignore")
            try:
                o.value = f()
                o.ok, o.error, o.etype, o.emsg = True, None, None, None
            except Exception as e:
                o.value, o.ok, o.error = None, False, e
                o.etype, o.emsg = type(e).__name__, _ADDR.sub("0x", str(e))
    o.out, o.warns, o.snap = buf.getvalue(), [], None
    return o, lf.record


def pick_steps(rng, record, k, focus=None):
    """k steps to strike at: by default every *site* is as likely as any other,
    so rarely executed lines are struck as often as hot loops.  `focus` gives
    the sites to prefer half of the time."""
    if not record:
        return []
    sites = {}
    for n, s in enumerate(record):
        sites.setdefault(s, []).append(n + 1)
    keys = sorted(sites)
    pref = [s for s in keys if focus and focus(s)]
    state = [s for s in keys if focus and stateful(s)]
    out = []
    for _ in range(k):
        pool = state if state and rng.flip(0.4) else pref if pref and rng.flip(0.5) else keys
        s = pool[rng.randrange(len(pool))]
        c = sites[s]
        j = rng.pick([0, len(c) - 1, rng.randrange(len(c))])
        out.append(c[j])
    return sorted(set(out))


_STATE = {}
_MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse", "appendleft"}


def stateful(site):
    """Is this line in a function that writes to something that outlives the
    call - a module- or class-level object, a global, an attribute of an
    argument, a process-wide setting?  (A sampling hint.)"""
    import ast
    import os
    from . import sched
    f, _, line = site
    if f not in _STATE:
        lines = set()
        try:
            with open(os.path.join(sched.SPREG, f)) as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        top = set()
        for node in tree.body:
            if isinstance(node, (ast.Assign, ast.AnnAssign)):
                for t in node.targets if isinstance(node, ast.Assign) else [node.target]:
                    top.update(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
            elif isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                top.add(node.name)
            elif isinstance(node, (ast.Import, ast.ImportFrom)):
                top.update((a.asname or a.name).split(".")[0] for a in node.names)

        def root(e):
            while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
                e = e.func if isinstance(e, ast.Call) else e.value
            return e.id if isinstance(e, ast.Name) else None

        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            args = {a.arg for a in fn.args.args + fn.args.kwonlyargs} - {"self"}
            hit = False
            for n in ast.walk(fn):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    hit = True
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    # attributes of objects the function did not make
                    r = root(n.value)
                    hit = hit or r in args or r in top or r in ("type", "cls") or isinstance(n.value, ast.Attribute) and n.value.attr == "__class__"
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit = hit or root(n.value) in top
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    r = root(n.func.value)
                    hit = hit or n.func.attr in _MUTATORS and r in top or n.func.attr in ("seterr", "simplefilter", "set_printoptions", "seed", "set_option", "chdir")
            if hit:
                lines.update(range(fn.lineno, (fn.end_lineno or fn.lineno) + 1))
        _STATE[f] = lines
    return line in _STATE[f]


_GUARDED = {}


def guarded(site):
    """Is this line inside a try block that has handlers?  (A sampling hint.)"""
    import ast
    import os
    from . import sched
    f, _, line = site
    if f not in _GUARDED:
        lines = set()
        try:
            with open(os.path.join(sched.SPREG, f)) as fh:
                for node in ast.walk(ast.parse(fh.read())):
                    if isinstance(node, ast.Try) and (node.handlers or node.finalbody):
                        for b in node.body:
                            lines.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        except (OSError, SyntaxError):
            pass
        _GUARDED[f] = lines
    return line in _GUARDED[f]


def isolated(fn):
    """fn() in a forked copy of this process; its pickled result."""
    import os
    import pickle
    from .core import HarnessError
    from .simpool import REAL
    r, w = os.pipe()
    pid = REAL["fork"]()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st or not buf:
        raise HarnessError("isolated call died")
    return pickle.loads(buf)


class Frozen:
    """The comparable part of an Outcome, safe to send between processes."""

    def __init__(self, o):
        finish(o)
        self.ok, self.snap, self.etype, self.emsg, self.out = o.ok, o.snap, o.etype, o.emsg, o.out
        self.warns = o.warns
        self.value = None

    brief = Outcome.brief
