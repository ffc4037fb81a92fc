"""Helper processes that start differently: another PYTHONHASHSEED, another
address layout, nothing of this process's history.  Each request is handled in
a fresh fork of the helper."""
import os
import pickle
import struct
import subprocess
import sys

from .core import HarnessError, TooSlow


def _read(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = need(8)
    return None if h is None else need(struct.unpack("<Q", h)[0])


def _write(fd, b):
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b[:1 << 20])
        b = b[n:]


class Helper:
    def __init__(self, hashseed):
        """`hashseed` may carry the libraries that are to be missing: '0-name,name'."""
        from . import runner
        self.hashseed = hashseed
        seed, _, absent = hashseed.partition("-")
        env = runner.env_for(seed)
        env["DST_ABSENT"] = absent
        self.p = subprocess.Popen([runner.PYTHON, "-m", "dst.runner", "_serve"], env=env, cwd=runner.VERIF,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def ask(self, module, func, *args):
        _write(self.p.stdin.fileno(), pickle.dumps((module, func, args)))
        b = _read(self.p.stdout.fileno())
        if b is None:
            raise HarnessError("helper process died")
        ok, v = pickle.loads(b)
        if ok is None:
            raise TooSlow(v)
        if not ok:
            raise HarnessError("helper: %s" % v)
        return v

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


def serve():
    import importlib
    import traceback
    fin, fout = os.dup(0), os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    from . import runner
    runner.boot()
    while True:
        b = _read(fin)
        if b is None:
            return 0
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(fin)
            try:
                module, func, args = pickle.loads(b)
                import signal

                def slow(*_):
                    signal.setitimer(signal.ITIMER_VIRTUAL, 1)
                    raise TooSlow("more than %d s of CPU time" % runner.CPU_LIMIT)
                signal.signal(signal.SIGVTALRM, slow)
                signal.setitimer(signal.ITIMER_VIRTUAL, runner.CPU_LIMIT)
                try:
                    out = (True, getattr(importlib.import_module(module), func)(*args))
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                out = pickle.dumps(out)
            except TooSlow as e:
                out = pickle.dumps((None, str(e)))
            except BaseException:
                out = pickle.dumps((False, traceback.format_exc()[-1500:]))
            _write(w, out)
            os._exit(0)
        os.close(w)
        res = _read(r)
        os.close(r)
        os.waitpid(pid, 0)
        _write(fout, res if res is not None else pickle.dumps((False, "request process died")))


POOL = {}


def warm(hashseeds):
    for hs in hashseeds:
        POOL[hs] = Helper(hs)


def reset():
    for hs in list(POOL):
        POOL[hs].p.kill()
        POOL[hs] = Helper(hs)
