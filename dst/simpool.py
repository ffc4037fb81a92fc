"""Simulated worker processes: the multiprocessing / concurrent.futures seam.

`install()` replaces the pool constructors of `multiprocessing`,
`multiprocessing.pool` and `concurrent.futures` before spreg is imported.
Outside a simulated run the constructors refuse to work, so a pool the
simulator does not control can never appear.

A `World` is one simulated machine: a discrete-event queue in simulated time,
a number of CPUs, worker processes with their own memory, and a fault plan.
Arguments and results cross the process boundary by pickling.  Every choice
(which worker takes a task, how long it runs, when its arguments leave the
parent, when its result arrives) is drawn from the run's PRNG.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import heapq
import multiprocessing as mp
import multiprocessing.pool as mpp
import os
import pickle
import struct
import sys

import numpy as np

from .core import Rng, HarnessError

REAL = {
    "Process": mp.Process,
    "cpu_count": mp.cpu_count,
    "os_cpu_count": os.cpu_count,
    "fork": os.fork,
}


class SimHang(BaseException):
    """The parent waits for something that can never happen any more."""


class InjectedFault(Exception):
    """A worker's own failure, as the simulator injects it."""


class Unpicklable:
    def __reduce__(self):
        raise pickle.PicklingError("simulated: value cannot be sent between processes")


FAULT_EXC = {
    "MemoryError": lambda: MemoryError("simulated allocation failure in worker"),
    "LinAlgError": lambda: np.linalg.LinAlgError("simulated solver failure in worker"),
    "ValueError": lambda: ValueError("simulated failure in worker"),
    "OSError": lambda: OSError(5, "simulated I/O error in worker"),
    "InjectedFault": lambda: InjectedFault("simulated failure in worker"),
}

WORLD = None


# ------------------------------------------------------------ process memory


class Snapshot:
    """A real forked process that holds a copy of the parent's memory from the
    moment it was forked and runs the tasks it is sent, one at a time."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = REAL["fork"]()
        if pid == 0:
            code = 1
            try:
                # keep nothing of the parent's descriptors but our two pipe ends
                lo, hi = sorted((r1, w2))
                os.closerange(3, lo)
                os.closerange(lo + 1, hi)
                os.closerange(hi + 1, 4096)
                global WORLD
                WORLD = None
                sys.settrace(None)
                while True:
                    p = _read(r1)
                    if p is None:
                        break
                    _write(w2, run_payload(p))
                code = 0
            except BaseException:
                code = 2
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def run(self, payload):
        _write(self.w, payload)
        out = _read(self.r)
        if out is None:
            raise HarnessError("snapshot process died")
        return out

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def _write(fd, b):
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b[:1 << 20])
        b = b[n:]


def _read(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = need(8)
    if h is None:
        return None
    return need(struct.unpack("<Q", h)[0])


def run_payload(payload):
    """What one worker process does with one task."""
    fault, body = pickle.loads(payload)
    try:
        func, args, kwds = pickle.loads(body)
        if isinstance(fault, tuple):
            return pickle.dumps(_struck(fault, body))
        if fault == "before" or (isinstance(fault, str) and fault in FAULT_EXC):
            raise FAULT_EXC[fault]()
        res = (True, func(*args, **kwds))
        if fault == "late":
            raise FAULT_EXC["MemoryError"]()
        if fault == "unpicklable_result":
            res = (True, Unpicklable())
    except Exception as e:
        res = (False, e)
    try:
        return pickle.dumps(res)
    except Exception as e:
        return pickle.dumps((False, mpp.MaybeEncodingError(e, res[1] if not isinstance(res[1], Unpicklable) else "value")))


def _struck(fault, body):
    """One task whose computation fails at a seeded executed line inside spreg."""
    from . import sched, session
    _, exc, seed = fault

    def aim():
        func, args, kwds = pickle.loads(body)
        _, rec = session.survey(lambda: func(*args, **kwds))
        return session.pick_steps(Rng("strike", seed), rec, 1, focus=session.guarded)

    at = session.isolated(aim)
    func, args, kwds = pickle.loads(body)
    with sched.LineFault(at[0] if at else None, FAULT_EXC[exc]):
        try:
            return True, func(*args, **kwds)
        except Exception as e:
            return False, e


# --------------------------------------------------------------------- world


class World:
    """cfg: {seed, ncpu, memory: inline|fork|pristine, faults: [..]}

    A fault is {"kind", "task": i} with i the task's submission index modulo
    the number submitted so far, or {"kind": "spawn", "pool": i}."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.rng = Rng("world", cfg["seed"])
        self.ncpu = cfg.get("ncpu", 4)
        self.memory = cfg.get("memory", "inline")
        self.now = 0.0
        self.seq = 0
        self.q = []
        self.pools = []
        self.ntask = 0
        self.log = []
        self.fired = {}
        self.order = []
        self.peak = 0
        self.blocking = 0
        self.faults = {}
        self.spawn_faults = set()
        self.interrupt_at = None
        for f in cfg.get("faults", []):
            if f["kind"] == "spawn":
                self.spawn_faults.add(f["pool"])
            elif f["kind"] == "interrupt":
                self.interrupt_at = f["at"]
            else:
                self.faults[f["task"]] = ("strike", f["exc"], f["seed"]) if f["kind"] == "strike" else f["kind"]
        self.pristine = [Snapshot() for _ in range(2)] if self.memory == "pristine" else []
        self.snaps = []

    # -- events
    def at(self, dt, fn):
        self.seq += 1
        heapq.heappush(self.q, (self.now + dt, self.seq, fn))

    def step(self):
        if not self.q:
            return False
        t, _, fn = heapq.heappop(self.q)
        self.now = max(self.now, t)
        fn()
        return True

    def block(self, done, what):
        """The parent blocks until done(); simulated time passes meanwhile."""
        self.blocking += 1
        if self.interrupt_at is not None and self.blocking > self.interrupt_at:
            self.interrupt_at = None
            self.fire("interrupt_in_wait")
            raise KeyboardInterrupt("simulated Ctrl-C while waiting for workers")
        while not done():
            if not self.step():
                self.log.append("hang %s" % what)
                raise SimHang("the fit waits forever: %s" % what)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.log.append("fault %s" % kind)

    def live_workers(self):
        return sum(p.workers_alive() for p in self.pools)

    def close(self):
        for s in self.pristine + self.snaps:
            s.close()

    def dur(self):
        return self.rng.choice([0.1, 1.0, 1.0, 5.0]) * (0.2 + self.rng.random())


class Task:
    def __init__(self, pool, func, args, kwds):
        w = pool.world
        self.pool, self.idx = pool, w.ntask
        w.ntask += 1
        self.call = (func, args, kwds)
        self.body = None
        self.fault = w.faults.pop(self.idx, None)
        self.done = False
        self.ok = None
        self.value = None
        self.lost = False
        self.cbs = []

    def pickle_now(self):
        if self.body is None:
            try:
                if self.fault == "unpicklable_args":
                    self.pool.world.fire("unpicklable_args")
                    raise pickle.PicklingError("simulated: arguments cannot be sent")
                self.body = pickle.dumps(self.call)
            except Exception as e:
                self.body = b""
                self.finish(False, e)

    def finish(self, ok, value):
        if self.done:
            return
        self.done, self.ok, self.value = True, ok, value
        for cb in self.cbs:
            cb(self)


class Base:
    """What both pool families share: workers, a task queue, shutdown."""

    executor = False
    threads = False

    def _boot(self, processes):
        w = WORLD
        if w is None:
            raise HarnessError("worker pool created outside a simulated run")
        self.world = w
        self.index = len(w.pools)
        if self.index in w.spawn_faults:
            w.fire("spawn_failure")
            w.log.append("pool %d spawn failed" % self.index)
            raise OSError(11, "simulated: cannot start worker process")
        self.nproc = int(processes) if processes else w.ncpu
        if self.nproc < 1:
            raise ValueError("Number of processes must be at least 1")
        self.free = []
        self.waiting = []
        self.tasks = []
        self.closed = self.terminated = self.joined = self.broken = False
        self.busy = 0
        w.pools.append(self)
        w.log.append("pool %d start n=%d" % (self.index, self.nproc))
        if w.memory == "fork" and not self.threads:
            self.mem = [Snapshot() for _ in range(min(self.nproc, 2))]
            w.snaps += self.mem
        elif w.memory == "pristine" and not self.threads:
            self.mem = w.pristine
        else:
            self.mem = [None]
        w.peak = max(w.peak, w.live_workers())
        for i in range(self.nproc):
            # each worker becomes ready at its own time
            w.at(w.dur() * 0.5, lambda i=i: self._ready(i))

    def workers_alive(self):
        if self.threads:
            return 0
        return 0 if (self.terminated or self.broken or self.closed and self.busy == 0 and not self.waiting and all(t.done for t in self.tasks)) else self.nproc

    def _ready(self, i):
        if self.terminated:
            return
        self.free.append(i)
        self._dispatch()

    def _submit(self, func, args, kwds):
        if self.closed or self.terminated:
            raise (RuntimeError("cannot schedule new futures after shutdown") if self.executor else ValueError("Pool not running"))
        if self.broken:
            raise cfp.BrokenProcessPool("simulated: a worker process died")
        t = Task(self, func, args, kwds)
        self.tasks.append(t)
        w = self.world
        w.log.append("submit %d" % t.idx)
        # the queue feeder thread pickles the call some time after submission
        if w.rng.random() < 0.5:
            t.pickle_now()
        w.at(w.rng.random() * 0.3, lambda: (t.pickle_now(), self._enqueue(t)))
        return t

    def _enqueue(self, t):
        if t.done or self.terminated:
            return
        self.waiting.append(t)
        self._dispatch()

    def _dispatch(self):
        w = self.world
        while self.free and self.waiting and not self.terminated and not self.broken:
            # any idle worker may win the race for the oldest queued task
            i = self.free.pop(w.rng.randrange(len(self.free)))
            t = self.waiting.pop(0)
            self.busy += 1
            dt = w.dur()
            if t.fault == "stall":
                # a slow worker: hours instead of seconds, but not a failed one
                t.fault = None
                w.fire("worker_stall")
                dt *= 2e4
            w.at(dt, lambda t=t, i=i: self._complete(t, i))

    def _complete(self, t, i):
        if self.terminated:
            return
        w = self.world
        self.busy -= 1
        fault = t.fault
        if fault == "kill":
            w.fire("worker_kill")
            w.log.append("worker %d of pool %d killed running task %d" % (i, self.index, t.idx))
            if self.executor:
                self.broken = True
                for o in self.tasks:
                    if not o.done:
                        o.finish(False, cfp.BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending."))
            else:
                t.lost = True  # a multiprocessing.Pool replaces the worker and never completes the task
                w.at(w.dur() * 0.5, lambda: self._ready(i))
            return
        if fault not in (None, "unpicklable_args"):
            w.fire("worker_" + ("strike_" + fault[1] if isinstance(fault, tuple) else fault))
        payload_fault = fault if fault not in (None, "unpicklable_args", "kill") else None
        if self.threads:
            func, args, kwds = t.call
            try:
                out = (True, func(*args, **kwds))
            except Exception as e:
                out = (False, e)
        else:
            payload = pickle.dumps((payload_fault, t.body))
            m = self.mem[w.rng.randrange(len(self.mem))]
            raw = m.run(payload) if m is not None else run_payload(payload)
            out = pickle.loads(raw)
        w.order.append(t.idx)
        w.log.append("done %d by %d.%d ok=%s" % (t.idx, self.index, i, out[0]))
        # the result travels back with its own delay, so results arrive out of order
        w.at(w.rng.random() * 2, lambda: t.finish(*out))
        self.free.append(i)
        self._dispatch()

    def _drain(self):
        self.world.block(lambda: all(t.done for t in self.tasks), "worker pool never finishes task(s) %s" % [t.idx for t in self.tasks if not t.done])


class SimResult:
    def __init__(self, pool, tasks, unpack, callback=None, error_callback=None):
        self.pool, self.tasks, self.unpack = pool, tasks, unpack
        self._cb, self._ecb = callback, error_callback
        self._fired = False
        for t in tasks:
            t.cbs.append(self._one)
        self._one(None)

    def _one(self, _t):
        if self._fired or not self.ready():
            return
        self._fired = True
        if self.successful():
            if self._cb:
                self._cb(self._value())
        elif self._ecb:
            self._ecb(self._error())

    def ready(self):
        return all(t.done for t in self.tasks)

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        return all(t.ok for t in self.tasks)

    def _value(self):
        v = [t.value for t in self.tasks]
        return v[0] if self.unpack else v

    def _error(self):
        return [t.value for t in self.tasks if not t.ok][0]

    def wait(self, timeout=None):
        self._wait(timeout)

    def _wait(self, timeout):
        w = self.pool.world
        if timeout is None:
            w.block(self.ready, "result of task(s) %s never arrives" % [t.idx for t in self.tasks if not t.done])
            return True
        end = w.now + timeout
        while not self.ready() and w.q and w.q[0][0] <= end:
            w.step()
        if not self.ready():
            w.now = end
        return self.ready()

    def get(self, timeout=None):
        if not self._wait(timeout):
            raise mp.TimeoutError()
        if not self.successful():
            raise self._error()
        return self._value()


class SimPool(Base):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._boot(processes)
        if initializer is not None:
            initializer(*initargs)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return SimResult(self, [self._submit(func, tuple(args), dict(kwds))], True, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return SimResult(self, [self._submit(func, (a,), {}) for a in iterable], False, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return SimResult(self, [self._submit(func, tuple(a), {}) for a in iterable], False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        rs = [SimResult(self, [self._submit(func, (a,), {})], True) for a in iterable]
        return (r.get() for r in rs)

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [SimResult(self, [self._submit(func, (a,), {})], True) for a in iterable]

        def it():
            left = list(rs)
            while left:
                self.world.block(lambda: any(r.ready() for r in left), "imap_unordered")
                r = [r for r in left if r.ready()][0]
                left.remove(r)
                yield r.get()
        return it()

    def close(self):
        if not self.terminated:
            self.closed = True
            self.world.log.append("pool %d close" % self.index)

    def terminate(self):
        self.terminated = True
        self.world.log.append("pool %d terminate" % self.index)

    def join(self):
        if not (self.closed or self.terminated):
            raise ValueError("Pool is still running")
        if not self.terminated:
            self.world.block(lambda: all(t.done for t in self.tasks), "pool join")
        self.joined = True
        self.world.log.append("pool %d join" % self.index)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimThreadPool(SimPool):
    threads = True


class SimFuture(cf.Future):
    def __init__(self, task):
        super().__init__()
        self._task = task
        # sets of futures have an order of the seed's choosing, not of the allocator's
        self._order = Rng("future", task.pool.world.cfg["seed"], task.pool.index, task.idx).randrange(1 << 60)
        self.set_running_or_notify_cancel()
        task.cbs.append(self._fin)
        if task.done:
            self._fin(task)

    def __hash__(self):
        return self._order

    def __eq__(self, other):
        return self is other

    def _fin(self, t):
        if super().done():
            return
        if t.ok:
            self.set_result(t.value)
        else:
            self.set_exception(t.value)

    def _pump(self, timeout):
        w = self._task.pool.world
        if timeout is None:
            w.block(lambda: self._task.done, "future of task %d never completes" % self._task.idx)
        else:
            end = w.now + timeout
            while not self._task.done and w.q and w.q[0][0] <= end:
                w.step()
            if not self._task.done:
                w.now = end
                raise cf.TimeoutError()

    def result(self, timeout=None):
        self._pump(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._pump(timeout)
        return super().exception(0)


class SimExecutor(Base):
    executor = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._boot(max_workers)
        if initializer is not None:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        return SimFuture(self._submit(fn, args, kwargs))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, cancel_futures=False):
        if not self.closed:
            self.world.log.append("executor %d shutdown" % self.index)
        self.closed = True
        if cancel_futures:
            for t in self.waiting:
                t.finish(False, cf.CancelledError())
            self.waiting = []
        if wait:
            self._drain()
            self.joined = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class SimThreadExecutor(SimExecutor):
    threads = True


def _wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    w = WORLD
    if w is None:
        raise HarnessError("wait() outside a simulated run")

    def ready():
        d = [f for f in fs if f.done()]
        if return_when == cf.FIRST_COMPLETED:
            return bool(d)
        if return_when == cf.FIRST_EXCEPTION and any(f._task.done and not f._task.ok for f in fs):
            return True
        return len(d) == len(fs)
    w.block(ready, "futures never complete")
    d = {f for f in fs if f.done()}
    return cf.DoneAndNotDoneFutures(d, set(fs) - d) if hasattr(cf, "DoneAndNotDoneFutures") else (d, set(fs) - d)


def _as_completed(fs, timeout=None):
    left = sorted(set(fs), key=hash)
    # those that are done come first, in no particular order; the others as they finish
    for f in [f for f in left if f.done()]:
        left.remove(f)
        yield f
    while left:
        WORLD.block(lambda: any(f.done() for f in left), "futures never complete")
        f = [f for f in left if f.done()][0]
        left.remove(f)
        yield f


def _noproc(*a, **k):
    raise HarnessError("spreg started a process the simulator does not model")


class SimContext:
    """multiprocessing.get_context(...) as spreg would see it."""

    def __init__(self, method=None):
        self.method = method
        self.TimeoutError = mp.TimeoutError

    def Pool(self, *a, **k):
        return SimPool(*a, **k)

    def cpu_count(self):
        return _cpus()

    def get_start_method(self, allow_none=False):
        return self.method or "fork"

    def __getattr__(self, k):
        raise HarnessError("multiprocessing context attribute %r is not simulated" % k)


def _cpus(*a, **k):
    return WORLD.ncpu if WORLD is not None else REAL["cpu_count"]()


def install():
    mp.Pool = SimPool
    mpp.Pool = SimPool
    mpp.ThreadPool = SimThreadPool
    mp.cpu_count = _cpus
    os.cpu_count = _cpus
    mp.get_context = lambda method=None: SimContext(method)
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = SimThreadExecutor
    cf.wait = _wait
    cf.as_completed = _as_completed


class running:
    """with running(cfg) as world: ... - the only way a pool can exist."""

    def __init__(self, cfg):
        self.cfg = cfg

    def __enter__(self):
        global WORLD
        self.world = WORLD = World(self.cfg)
        return self.world

    def __exit__(self, *a):
        global WORLD
        WORLD = None
        self.world.close()
        return False
