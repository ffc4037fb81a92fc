"""C12: a missing or failing output stream does not affect results."""
import contextlib
import errno
import os
import sys
import tempfile
import warnings

from .. import work, snap as S
from ..core import Rng
from ..session import isolated, finish, same, Outcome, Frozen, _ADDR, h, ok, violation, where, shrink_spec

COUNTS = {"quick": 1000, "thorough": 18000}
RULE = ("one run = one call under a simulated standard output - recorded, absent, closed, with a broken pipe, full, blocking, unable to encode or failing to flush from its n-th operation on, or "
        "without the usual attributes - compared with the same call in another process whose output works; calls that were not asked to print must not touch the stream; calls asked to print may "
        "raise only the stream's own error, and a retry with a working stream must give the fault-free result and text; non-trivial when the fault-free call succeeded; distinct by (call, options, "
        "stream, failing operation)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas"]
STUB = ["standard output (sys.stdout; file descriptor 1 is a scratch file whose size is checked)"]
ASSUME = ["only standard output fails; standard error is left alone"]
MUST_HIT = ["silent", "printing", "fault_hit", "absent", "closed", "retry", "error_path"]

FAST = [e for e in work.ALL if not work.EST[e].get("slow") and e not in ("dgp",)]
SLOW = [e for e in work.ALL if work.EST[e].get("slow")]
PRINTERS = ["stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm", "SUR", "NSLX", "Skater_reg", "sp_tests"]
KINDS = ["absent", "closed", "pipe", "full", "io", "again", "encode", "flush", "bare"]


def gen(seed, i, tier):
    rng = Rng(seed, "C12", tier, i)
    j = i // 4
    printing = rng.flip(0.3)
    est = rng.pick(PRINTERS) if printing else (FAST[j % len(FAST)] if rng.flip(0.9) else rng.pick(SLOW))
    real = "Probit" if est == "sp_tests" else est
    force = {"cores": False} if "cores" in work.EST[real]["opts"] else {}
    spec = work.sample(rng, real, plain=0.55, **force)
    o = spec["o"]
    if est == "NSLX":
        o["conv_flag"] = 0
    if printing:
        if est in ("SUR", "NSLX"):
            o["verbose"] = True
            if est == "SUR":
                o["iter"] = True
            elif rng.flip():
                o["conv_flag"], o["verbose"] = 1, rng.flip()
        elif est == "Skater_reg":
            o["_verbose"] = rng.pick([1, 2])
        elif est != "sp_tests":
            o["_mprint"] = True
    return {"spec": spec, "printing": printing, "call": est, "stream": rng.pick(KINDS + ["record"]), "at": rng.weighted([(1, 4), (2, 2), (3, 1), (5, 1), (9, 1)]),
            "spoil": (not printing) and rng.flip(0.15), "badarg": rng.randrange(1 << 20)}


class StreamError(OSError):
    pass


class Stream:
    """Standard output that starts to fail at its `at`-th operation."""
    encoding = "ascii"
    errors = "strict"

    def __init__(self, kind, at):
        self.kind, self.at, self.n, self.text, self.hits = kind, at, 0, [], 0

    def _fail(self):
        self.hits += 1
        k = self.kind
        if k == "closed":
            raise ValueError("I/O operation on closed file.")
        if k == "pipe":
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if k == "again":
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if k in ("full", "flush"):
            raise OSError(errno.ENOSPC, "No space left on device")
        if k == "io":
            raise OSError(errno.EIO, "Input/output error")
        if k == "encode":
            raise UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range(128)")
        raise AttributeError("no such method")

    def write(self, s):
        self.n += 1
        if self.kind not in ("record", "flush", "bare") and self.n >= self.at:
            self._fail()
        self.text.append(str(s))
        return len(s)

    def flush(self):
        self.n += 1
        if self.kind == "flush" or self.kind not in ("record", "bare") and self.n >= self.at:
            self._fail()

    def isatty(self):
        return False

    def writable(self):
        return self.kind != "closed"

    @property
    def closed(self):
        return self.kind == "closed"

    def fileno(self):
        raise OSError(errno.EBADF, "no file descriptor")


class Bare:
    """The least that print() needs."""

    def __init__(self):
        self.n, self.hits, self.text = 0, 0, []

    def write(self, s):
        self.n += 1
        self.text.append(str(s))


STREAM_ERRORS = {"closed": "ValueError", "pipe": "BrokenPipeError", "again": "BlockingIOError", "full": "OSError", "io": "OSError", "encode": "UnicodeEncodeError", "flush": "OSError"}


def caller(plan):
    spec = plan["spec"]
    case = work.build(spec)
    if plan["spoil"]:
        from .c07 import spoil
        spoil(case, plan["badarg"])
        if work.EST[spec["est"]].get("fn") is None:
            case = work.build(spec, case.args)
    if plan["call"] == "sp_tests":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = case.call()
        from spreg import diagnostics_probit as DP
        from scipy.stats import norm
        w = case.args["w"]
        fitted = norm.ppf(m.predy)
        case.call = lambda: DP.sp_tests(obj_list=[w, fitted, m.u_naive, m.u_gen])
    return case


def under(f, stream):
    """Run f() with sys.stdout replaced; only sys.stdout, nothing captured."""
    o = Outcome()
    o.warns, o.snap, o.out = [], None, ""
    old = sys.stdout
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sys.stdout = stream
        try:
            try:
                o.value = f()
                o.ok, o.error, o.etype, o.emsg = True, None, None, None
            except Exception as e:
                o.value, o.ok, o.error = None, False, None
                o.etype, o.emsg = type(e).__name__, _ADDR.sub("0x", str(e))
            o.out = "kept" if sys.stdout is stream else "replaced"
        finally:
            sys.stdout = old
    return o


@contextlib.contextmanager
def fd1():
    """File descriptor 1 as a scratch file; yields its size afterwards."""
    old = os.dup(1)
    f = tempfile.TemporaryFile()
    os.dup2(f.fileno(), 1)
    size = [0]
    try:
        yield size
    finally:
        size[0] = os.fstat(1).st_size
        os.dup2(old, 1)
        os.close(old)
        f.close()


def run(plan):
    spec, kind = plan["spec"], plan["stream"]
    est = plan["call"]
    try:
        case = caller(plan)
    except Exception as e:
        return ok(nontrivial=False, sig=h([est, "unbuilt"]), log_hash=h(type(e).__name__), steps=0, probes={}, faults={}, sample={"call": est})

    def reference():
        rec = Stream("record", 0)
        o = under(case.call, rec)
        return Frozen(o), "".join(rec.text), rec.n
    ref, text, writes = isolated(reference)
    printing = plan["printing"] or spec["est"] == "ML_ErrorPooled" and False
    probes = {k: 0 for k in MUST_HIT}
    probes["silent" if not printing else "printing"] = 1
    probes["error_path"] = int(not ref.ok)
    if kind in probes:
        probes[kind] = 1
    stream = None if kind == "absent" else Bare() if kind == "bare" else Stream(kind, plan["at"])
    common = dict(sig=h([est, {k: v for k, v in spec["o"].items() if v}, kind, plan["at"], plan["spoil"]]), nontrivial=ref.ok, log_hash=h([kind, plan["at"], ref.etype, writes]), steps=1, probes=probes,
                  faults={}, sample={"call": est, "stream": kind, "failing operation": plan["at"], "writes when nothing fails": writes})

    def bad(cls, msg):
        return violation("C12:%s:%s" % (cls, est), "%s with standard output %s: %s" % (est, kind, msg), facts={"call": est}, log={"text": text[:300]}, **common)
    if not printing and (writes or text.strip()):
        return bad("writes", "a call that was not asked to print wrote %d times: %r" % (writes, text[:160]))
    with fd1() as size:
        got = under(case.call, stream)
    if size[0]:
        return bad("descriptor", "%d bytes were written to file descriptor 1 directly" % size[0])
    hits = stream.hits if stream is not None else 0
    if hits:
        common["faults"] = {"stream error: " + kind: hits}
        probes["fault_hit"] = 1
    if got.out == "replaced":
        return bad("replaced", "sys.stdout was left replaced")
    if hits and printing and not got.ok:
        want = STREAM_ERRORS[kind]
        if ref.ok and got.etype != want:
            return bad("error", "the stream failed with %s, the call raised %s: %s" % (want, got.etype, got.emsg[:120]))
    else:
        d = same(ref, finish(got), S.Tol(1e-9, 1e-12), "result")
        if d is None and not ref.ok and ref.emsg != got.emsg:
            d = "message %r instead of %r" % (got.emsg[:120], ref.emsg[:120])
        if d:
            return bad("differs:%s" % where(d), d)
    # afterwards, with a working stream, in the same process
    rec = Stream("record", 0)
    again = under(caller(plan).call, rec)
    probes["retry"] = int(bool(hits))
    d = same(ref, finish(again), S.Tol(1e-9, 1e-12), "result")
    if d:
        return bad("retry:%s" % where(d), "afterwards, with a working stream: %s" % d)
    if est != "Skater_reg" and "".join(rec.text) != text:
        return bad("retry_text", "afterwards, with a working stream, the call printed other text")
    return ok(**common)


def shrink(plan, res):
    if plan["at"] > 1:
        yield dict(plan, at=1)
    if plan["stream"] != "closed":
        yield dict(plan, stream="closed")
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
