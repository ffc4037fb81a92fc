"""Deterministic scheduling of caller threads, and fault points inside spreg.

Caller threads are real threads, but exactly one is ever running: each parks
on its own semaphore and is released by the scheduler.  A thread gives up
control only at a *switch point* - a line (or bytecode) about to be executed
inside /repo/spreg, or a lock it cannot take - and only when the scheduler's
PRNG says so.  The decisions form the schedule, which is recorded as a list of
[thread, steps] segments and can be replayed exactly.
"""
import os
import sys
import threading

import spreg

from .core import Rng, HarnessError, StepLimit

SPREG = os.path.dirname(os.path.abspath(spreg.__file__)) + os.sep
_TESTS = SPREG + "tests" + os.sep
_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock

CURRENT = None  # the active Scheduler


_ours = {}


def in_spreg(code):
    f = code.co_filename
    r = _ours.get(f)
    if r is None:
        r = _ours[f] = f.startswith(SPREG) and not f.startswith(_TESTS)
    return r


# ------------------------------------------------------------------ schedules


class Policy:
    """Who runs next, and for how many switch points.

    kinds: `uniform` short random bursts; `long` long bursts with rare
    switches; `pct` random priorities with a few change points; `first`
    preempts each thread early in its life, when shared inputs are being
    validated; `replay` an explicit list of segments."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.kind = cfg["kind"]
        self.rng = Rng("policy", cfg.get("seed", 0))
        self.segs = list(cfg.get("segments", []))
        self.prio = {}

    def next(self, runnable, sched):
        k = self.kind
        r = self.rng
        if k == "replay":
            while self.segs:
                t, n = self.segs.pop(0)
                if t in runnable:
                    return t, n
            return runnable[0], 1 << 60
        if k == "serial":
            return runnable[0], 1 << 60
        t = r.pick(runnable)
        if k == "uniform":
            return t, r.randint(1, self.cfg.get("q", 12))
        if k == "long":
            return t, int(r.expovariate(1.0 / self.cfg.get("q", 400))) + 1
        if k == "first":
            return t, r.randint(1, 40) if sched.steps < 2500 else r.randint(50, 2000)
        if k == "pct":
            for x in runnable:
                self.prio.setdefault(x, r.random())
            t = max(runnable, key=lambda x: self.prio[x])
            n = r.randint(1, self.cfg.get("q", 1500))
            if r.random() < 0.7:
                self.prio[t] = r.random() * min(self.prio.values())
            return t, n
        raise HarnessError("policy %r" % k)


class _Thread:
    __slots__ = ("idx", "fn", "go", "thread", "done", "result", "error", "blocked", "quota", "taken")


class Scheduler:
    def __init__(self, policy, max_steps=4_000_000, opcodes=False, stall=300):
        self.policy = Policy(policy)
        self.threads = []
        self.ctl = threading.Semaphore(0)
        self.steps = 0
        self.max_steps = max_steps
        self.opcodes = opcodes
        if opcodes:
            # CPython delivers opcode events only to trace functions installed
            # after some frame has asked for them
            sys._getframe().f_trace_opcodes = True
        self.segments = []
        self.switch_sites = []
        self.running = None
        self.switches = 0
        self.stall = stall
        self.abort = False
        self.invariant = None

    def spawn(self, fn):
        t = _Thread()
        t.idx, t.fn, t.go = len(self.threads), fn, threading.Semaphore(0)
        t.done, t.result, t.error, t.blocked, t.quota, t.taken = False, None, None, None, 0, 0
        t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
        self.threads.append(t)
        return t

    def _main(self, t):
        t.go.acquire()
        try:
            if not self.abort:
                sys.settrace(self._tracer(t))
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except BaseException as e:
            t.error = e
        t.done = True
        self.ctl.release()

    def _tracer(self, t):
        opcodes = self.opcodes
        sched = self

        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not opcodes):
                t.taken += 1
                sched.steps += 1
                if sched.steps > sched.max_steps:
                    raise StepLimit("more than %d steps" % sched.max_steps)
                t.quota -= 1
                if t.quota <= 0:
                    sched._yield(t, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and in_spreg(frame.f_code):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def _yield(self, t, frame):
        if self.abort:
            raise StepLimit("aborted")
        if frame is not None and len(self.switch_sites) < 4000:
            self.switch_sites.append((t.idx, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        self.ctl.release()
        t.go.acquire()
        if self.abort:
            raise StepLimit("aborted")

    def block_on(self, lock):
        """Called by the running thread when it cannot take `lock`."""
        t = self.running
        t.blocked = lock
        self._yield(t, None)
        t.blocked = None

    def run(self):
        global CURRENT
        CURRENT = self
        for t in self.threads:
            t.thread.start()
        last = None
        try:
            while True:
                alive = [t for t in self.threads if not t.done]
                if not alive:
                    break
                runnable = [t.idx for t in alive if t.blocked is None or t.blocked.free_for(t)]
                if not runnable:
                    self.abort = True
                    for t in alive:
                        t.go.release()
                    raise StepLimit("deadlock: every caller thread waits for a lock")
                idx, quota = self.policy.next(runnable, self)
                t = self.threads[idx]
                t.quota, before = quota, t.taken
                self.running = t
                if last is not None and last != idx:
                    self.switches += 1
                last = idx
                t.go.release()
                if not self.ctl.acquire(timeout=self.stall):
                    raise HarnessError("caller thread %d neither finished nor yielded" % idx)
                n = t.taken - before
                if self.segments and self.segments[-1][0] == idx:
                    self.segments[-1][1] += n
                else:
                    self.segments.append([idx, n])
                if self.invariant is not None:
                    self.invariant(self)
        finally:
            CURRENT = None
            self.running = None
        for t in self.threads:
            t.thread.join(timeout=30)
        return self.threads


# ---------------------------------------------------------------------- locks


class SimLock:
    """A lock whose waiters are known to the scheduler."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.re = None, 0, reentrant

    def _me(self):
        return CURRENT.running if CURRENT is not None else "main"

    def free_for(self, t):
        return self.owner is None or (self.re and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while not self.free_for(me):
            if not blocking:
                return False
            if CURRENT is None:
                raise StepLimit("deadlock: lock already held and nobody else runs")
            CURRENT.block_on(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # pickled or copied models may hold a lock
    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    """Locks created by spreg code become simulated; all others stay real."""
    def from_spreg():
        f = sys._getframe(2)
        return f is not None and in_spreg(f.f_code)

    def Lock():
        return SimLock() if from_spreg() else _REAL_LOCK()

    def RLock():
        return SimLock(True) if from_spreg() else _REAL_RLOCK()
    threading.Lock, threading.RLock = Lock, RLock


# --------------------------------------------------------------- fault points


class LineFault:
    """Raise `exc` when the `at`-th traced step inside spreg is about to run.

    Counting is per installed instance, over line events of spreg frames in the
    current thread.  With at=None it only counts (and can record sites)."""

    def __init__(self, at=None, make=None, max_steps=None, record=False, only=None, on_step=None):
        self.at, self.make, self.n = at, make, 0
        self.max_steps = max_steps
        self.fired = None
        self.record = [] if record else None
        self.stack = None
        self.on_step = on_step
        self.only = only

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            n = self.n
            if self.record is not None:
                self.record.append((os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno))
            if self.on_step is not None:
                self.on_step(n, frame)
            if n == self.at:
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                st, f = [], frame
                while f is not None and len(st) < 30:
                    if in_spreg(f.f_code):
                        st.append("%s:%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_code.co_name, f.f_lineno))
                    f = f.f_back
                self.stack = st
                raise self.make()
            if self.max_steps is not None and n > self.max_steps:
                raise StepLimit("more than %d steps" % self.max_steps)
        return self._local

    def _glob(self, frame, event, arg):
        if event == "call" and in_spreg(frame.f_code):
            return self._local
        return None

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        return False
