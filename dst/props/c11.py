"""C11: a saved and restored model gives the same answers."""
import copy
import errno
import pickle

from .. import work, remote, sched, snap as S
from ..core import Rng, StepLimit
from ..session import fit, isolated, value_snap, h, ok, violation, where, shrink_spec
from .c09 import draw_ops, answer, asnap, quiet, DIAG  # noqa: F401

COUNTS = {"quick": 1000, "thorough": 18000}
RULE = ("one run = a model that is read, saved at a seeded point of its use (pickled by any protocol to a simulated file that may fill up, copied, or deep-copied, possibly while another thread reads), "
        "restored in a process with no history and another hash seed (possibly saved and restored again), and asked further questions; answers must equal those of the uninterrupted model, which must "
        "itself be unchanged; non-trivial when at least two questions were asked after restoring; distinct by (estimator, options, save point, questions, faults)")
REAL = ["all of spreg", "libpysal", "numpy/scipy/pandas", "pickle and copy", "real separate processes that restore"]
STUB = ["the file a model is saved to", "which thread runs next"]
ASSUME = ["the restoring process runs the same versions of spreg and its dependencies"]
MUST_HIT = ["pickle", "deepcopy", "copy", "saved_unread", "saved_after_reading", "disk_full", "chain", "concurrent", "submodel", "base_class"]

POOL = [e for e in work.MODELS if not work.EST[e].get("slow")]
SLOW = ["OLS_Endog_Regimes", "GM_Lag_Endog_Regimes", "TSLS_Endog_Regimes"]
BASES = [e for e in work.MODELS if work.EST[e].get("model")]


def warm():
    remote.warm(["0", "31337"])


reset = remote.reset


def gen(seed, i, tier):
    rng = Rng(seed, "C11", tier, i)
    j = i // 4
    est = POOL[j // 2 % len(POOL)] if j % 2 == 0 else rng.pick(POOL if rng.flip(0.9) else SLOW)
    force = {"cores": False} if "cores" in work.EST[est]["opts"] else {}
    spec = work.sample(rng, est, plain=0.5, **force)
    how = rng.weighted([("pickle", 5), ("deepcopy", 2), ("copy", 1), ("concurrent", 2)])
    return {"spec": spec, "how": how, "ops": rng.randrange(1 << 30), "before": rng.weighted([(0, 3), (1, 2), (2, 2), (4, 2), (7, 1)]), "after": rng.randint(2, 7),
            "protocol": rng.pick([2, 3, 4, 5]), "helper": rng.pick(["0", "31337"]), "chain": rng.flip(0.3), "full": rng.randint(0, 30) if rng.flip(0.3) else None,
            "policy": {"kind": "uniform", "q": rng.pick([2, 5, 15]), "seed": rng.randrange(1 << 30)}}


class Disk:
    """A file on a simulated disk that is full after `room` writes."""

    def __init__(self, room=None):
        self.b, self.n, self.room = [], 0, room

    def write(self, data):
        self.n += 1
        if self.room is not None and self.n > self.room:
            raise OSError(errno.ENOSPC, "No space left on device")
        self.b.append(bytes(data))
        return len(data)


def restored(blob, ops, again=None):
    """In another process: restore, answer, and perhaps save again."""
    m, w = quiet(lambda: pickle.loads(blob))
    out = [asnap(o, quiet(lambda: answer(m, w, o))) for o in ops]
    return out, (pickle.dumps((m, w), protocol=again) if again else None)


def run(plan):
    spec, how = plan["spec"], plan["how"]
    est = spec["est"]
    rng = Rng("C11ops", plan["ops"])
    case, out = fit(spec)
    base = dict(steps=0, probes={}, faults={}, sample={"est": est, "how": how})
    if not out.ok or not hasattr(out.value, "__dict__"):
        return ok(nontrivial=False, sig=h([est, "unfit", out.etype]), log_hash=h(out.etype), **base)
    w = case.args.get("w")
    m = quiet(work.build(spec).call)
    ops = plan.get("oplist") or [draw_ops(rng, m, plan["before"], w, est == "spDcache") if plan["before"] else [], draw_ops(rng, m, plan["after"], w, est == "spDcache")]
    before, after = ops
    after = after + [["all", None, None]]
    # what the uninterrupted model answers, in a process of its own
    def undisturbed():
        for o in before:
            quiet(lambda: answer(m, w, o))
        return [asnap(o, quiet(lambda: answer(m, w, o))) for o in after]
    refs = isolated(undisturbed)
    for o in before:
        quiet(lambda: answer(m, w, o))
    probes = {k: 0 for k in MUST_HIT}
    probes[how] = 1
    probes["submodel"] = int(any(o[1] is not None for o in before + after))
    probes["base_class"] = int(est in BASES)
    probes["saved_after_reading" if before else "saved_unread"] = 1
    faults, segs = {}, []

    def result(bad=None):
        common = dict(sig=h([est, {k: v for k, v in spec["o"].items() if v}, ops, how, plan["protocol"]]), nontrivial=len(after) >= 2, log_hash=h([ops, how, segs[:500]]), steps=len(before) + len(after),
                      probes=probes, faults=faults, sample={"est": est, "how": how, "read before saving": [o[2] for o in before], "asked after restoring": [o[2] or "everything" for o in after]})
        if bad is None:
            return ok(**common)
        r = violation("C11:%s:%s" % (how, bad[0]), "%s (%s, %d reads before): %s" % (est, how, len(before), bad[1]), facts={"est": est, "attr": bad[0]}, log={"before": before, "after": after}, **common)
        r["oplist"] = ops
        return r

    vis = isolated(lambda: value_snap(m))   # looked at in a copy of the process, so that looking computes nothing here
    shallow = {k: id(v) for k, v in vars(m).items()}
    # ------------------------------------------------------------------ save
    got = None
    try:
        if how in ("pickle", "concurrent"):
            if plan["full"] is not None and how == "pickle":
                d = Disk(plan["full"])
                try:
                    pickle.Pickler(d, plan["protocol"]).dump((m, w))
                except OSError:
                    faults["disk full"] = 1
                    probes["disk_full"] = 1
            if how == "concurrent":
                sc = sched.Scheduler(plan["policy"], opcodes=True, max_steps=20_000_000)
                reads = [o for o in after if o[0] == "read"] * 2
                blobs = []

                def saver():
                    for _ in range(3):
                        str(getattr(m, "n", ""))
                        blobs.append(pickle.dumps((m, w), protocol=plan["protocol"]))
                        for o in reads[:1]:
                            answer(m, w, o)
                sc.spawn(lambda: [answer(m, w, o) for o in reads])
                sc.spawn(saver)
                try:
                    quiet(sc.run)
                except StepLimit as e:
                    return result(("stuck", str(e)))
                for t in sc.threads:
                    if t.error is not None:
                        raise t.error
                segs = sc.segments
                faults["preemption"] = sc.switches
                blob = blobs[rng.randrange(len(blobs))]
            else:
                d = Disk()
                pickle.Pickler(d, plan["protocol"]).dump((m, w))
                blob = b"".join(d.b)
            H = remote.POOL[plan["helper"]]
            got, blob2 = H.ask("dst.props.c11", "restored", blob, [] if plan["chain"] else after, plan["protocol"] if plan["chain"] else None)
            if plan["chain"]:
                probes["chain"] = 1
                got, _ = H.ask("dst.props.c11", "restored", blob2, after, None)
            faults["restart"] = 1 + int(plan["chain"])
        else:
            c = (copy.copy if how == "copy" else copy.deepcopy)(m)
            w2 = w
            got = [asnap(o, quiet(lambda: answer(c, w2, o))) for o in after]
            if how == "deepcopy":
                # use up the copy; the original must not notice
                for k, v in list(vars(c).items()):
                    if hasattr(v, "fill") and getattr(v, "dtype", None) is not None and v.dtype.kind == "f" and v.flags.writeable and v.ndim:
                        v.fill(0.0)
    except (TypeError, AttributeError, pickle.PicklingError, RuntimeError, KeyError) as e:
        return result(("unsaveable", "cannot be saved: %s: %s" % (type(e).__name__, e)))
    if how != "concurrent":
        for k, i in shallow.items():
            if k not in vars(m) or id(vars(m)[k]) != i:
                return result((k, "saving replaced attribute %s of the original" % k))
        extra = sorted(set(vars(m)) - set(shallow))
        if extra and how != "copy":
            return result((extra[0], "saving added attribute %s to the original" % extra[0]))
    d = S.diff(vis, isolated(lambda: value_snap(m)), S.Tol(1e-9, 1e-12), "original")
    if d:
        return result((where(d), "saving changed the original: %s" % d))
    for o, a, b in zip(after, refs, got):
        d = S.diff(a, b, S.Tol(1e-9, 1e-12), "answer")
        if d:
            return result((o[2] or where(d), "the restored model answers %s differently: %s" % (o[2] or "a full reading", d)))
    # and the original goes on as if nothing had happened
    for o, a in zip(after, refs):
        d = S.diff(a, asnap(o, quiet(lambda: answer(m, w, o))), S.Tol(1e-9, 1e-12), "answer")
        if d:
            return result((o[2] or where(d), "after saving, the original answers %s differently: %s" % (o[2] or "a full reading", d)))
    return result()


def shrink(plan, res):
    ops = plan.get("oplist") or res.get("oplist")
    if plan["chain"]:
        yield dict(plan, chain=False)
    if plan["full"] is not None:
        yield dict(plan, full=None)
    if ops and not plan.get("oplist"):
        yield dict(plan, oplist=ops)
    elif ops:
        for side in (0, 1):
            for j in range(len(ops[side])):
                o2 = [list(ops[0]), list(ops[1])]
                del o2[side][j]
                yield dict(plan, oplist=o2)
    for s in shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
