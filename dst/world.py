"""Everything process-wide that a library call could change, as a snapshot."""
import atexit
import decimal
import gc
import locale
import logging
import multiprocessing
import os
import random
import signal
import sys
import threading
import types
import warnings

import numpy as np

from . import snap as S

_SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1]


def _modules():
    return {n: m for n, m in sorted(sys.modules.items()) if (n == "spreg" or n.startswith("spreg.")) and ".tests" not in n and m is not None}


def _data(v):
    return not isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, property, staticmethod, classmethod))


def code_state():
    """Module- and class-level data of spreg, default arguments, and what its
    names are bound to."""
    out = {}
    for mn, m in _modules().items():
        for k, v in vars(m).items():
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, types.FunctionType):
                out["binding %s.%s" % (mn, k)] = id(v)
                if (v.__module__ or "").startswith("spreg"):
                    out["defaults of %s.%s" % (mn, k)] = S.snap((v.__defaults__, v.__kwdefaults__, {a: b for a, b in vars(v).items() if not callable(b)}))
            elif isinstance(v, type):
                out["binding %s.%s" % (mn, k)] = id(v)
                if (v.__module__ or "").startswith("spreg"):
                    for a, b in vars(v).items():
                        if a.startswith("__") and a.endswith("__") and a != "__init__":
                            continue
                        f = b.__func__ if isinstance(b, (staticmethod, classmethod)) else b
                        if isinstance(f, types.FunctionType):
                            out["defaults of %s.%s.%s" % (mn, k, a)] = S.snap((f.__defaults__, f.__kwdefaults__))
                            out["binding %s.%s.%s" % (mn, k, a)] = id(f)
                        elif _data(b):
                            out["class data %s.%s.%s" % (mn, k, a)] = S.snap(b)
            elif _data(v):
                out["module data %s.%s" % (mn, k)] = S.snap(v)
    return out


_LIBS = ["numpy", "numpy.linalg", "numpy.random", "scipy.stats", "scipy.sparse", "scipy.sparse.linalg", "scipy.linalg", "scipy.optimize", "pandas", "libpysal.weights", "libpysal.weights.util",
         "libpysal.weights.spatial_lag", "math", "random", "time", "warnings", "os"]


def bindings():
    out = {}
    for n in _LIBS:
        m = sys.modules.get(n)
        if m is not None:
            for k, v in list(vars(m).items()):
                if callable(v) and not k.startswith("__"):
                    out["%s.%s" % (n, k)] = id(v)
    from libpysal.weights import W
    for k, v in vars(W).items():
        out["libpysal.weights.W.%s" % k] = id(v)
    return out


def take(code=True):
    import pandas as pd
    try:
        pc = S.snap(pd._config.config._global_config)
    except AttributeError:
        pc = None
    st = np.random.get_state()
    out = {
        "numpy global random state": (st[0], st[1].tobytes(), st[2], st[3], st[4]),
        "numpy global generator": id(np.random.mtrand._rand),
        "random module state": random.getstate(),
        "numpy error settings": (np.geterr(), str(np.geterrcall())),
        "numpy print options": repr({k: v for k, v in np.get_printoptions().items()}),
        "pandas options": pc,
        "warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
        "showwarning": (id(warnings.showwarning), id(warnings.formatwarning)),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "files in the working directory": sorted(os.listdir(".")),
        "umask": _umask(),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": str(decimal.getcontext()),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "signal handlers": [str(signal.getsignal(s)) for s in _SIGS],
        "timers": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        "import path": list(sys.path),
        "open files": sorted(_fds()),
        "threads": sorted(t.name for t in threading.enumerate()),
        "child processes": len(multiprocessing.active_children()),
        "start method": multiprocessing.get_start_method(allow_none=True),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "exit handlers": atexit._ncallbacks(),
    }
    if code:
        out.update(code_state())
        out.update(("binding " + k, v) for k, v in bindings().items())
    return out


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def _fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append((int(f), os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    return out


def changed(a, b):
    """First entry of `a` that differs in `b` (new spreg data counts, newly
    imported library names do not)."""
    for k in a:
        if k not in b:
            if k.startswith("binding ") and not k.startswith("binding spreg"):
                continue
            return k, "%s disappeared" % k
        if a[k] != b[k] if not isinstance(a[k], (tuple, list, dict)) or _plain(a[k]) else S.diff(a[k], b[k], S.EXACT):
            return k, "%s changed from %s to %s" % (k, _s(a[k]), _s(b[k]))
    for k in b:
        if k not in a and k.startswith(("module data", "class data", "binding spreg")):
            return k, "%s appeared: %s" % (k, _s(b[k]))
    return None


def _plain(v):
    try:
        return bool((v == v) is True)
    except Exception:
        return False


def _s(v):
    s = repr(v)
    return s if len(s) < 100 else s[:97] + "..."
