#!/usr/bin/env python3
"""Plant one bug in a scratch copy of /repo, confirm it, and keep it under /verif/seeded.

usage: plant.py SPEC.py [--check] [--seed N]

SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Python
source of the demonstration: exits non-zero when the property is broken).
The scratch copy lies in /tmp/plant-<ID> and is removed afterwards.
"""
import json, os, runpy, shutil, subprocess, sys

PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY="${PY:-/opt/venv/bin/python}"
here="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec timeout 250 "$PY" "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def main():
    spec = runpy.run_path(sys.argv[1])
    pid = spec["ID"]
    scratch = f"/tmp/plant-{pid}"
    out = f"/verif/seeded/{pid}"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", scratch])
    keep = tmpout = f"/tmp/plantout-{pid}"
    shutil.rmtree(tmpout, ignore_errors=True); os.makedirs(tmpout)
    ok = False
    try:
        open(tmpout + "/demo.sh", "w").write(SH); os.chmod(tmpout + "/demo.sh", 0o755)
        open(tmpout + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(tmpout + "/meta.json", "w"), indent=1)
        rc, o = sh(f"bash {tmpout}/demo.sh", cwd=scratch)
        if rc != 0:
            print(pid, "DEMO FAILS ON CLEAN TREE", rc, o[-1500:]); return
        for f, old, new in spec["EDITS"]:
            p = os.path.join(scratch, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(pid, "EDIT MATCHES", s.count(old), "TIMES:", f, repr(old[:80])); return
            open(p, "w", newline="").write(s.replace(old, new))
        rc, diff = sh("git diff --no-color", cwd=scratch)
        raw = subprocess.run(["git", "diff", "--no-color"], cwd=scratch, capture_output=True).stdout
        open(tmpout + "/patch.diff", "wb").write(raw)
        rc, o = sh(f"git apply --check {tmpout}/patch.diff", cwd="/repo")
        if rc:
            print(pid, "PATCH DOES NOT APPLY", o); return
        # changed lines must be original ones
        rc, o = sh(f"bash {tmpout}/demo.sh", cwd=scratch)
        if rc == 0:
            print(pid, "DEMO PASSES WITH THE BUG", o[-1500:]); return
        print(pid, "demo fails with bug, rc", rc, "|", o.strip().splitlines()[-1][:160] if o.strip() else "")
        r, t = sh(f"{PY} /verif/tools/stable_tests.py {scratch}")
        if r:
            print(pid, "STABLE TESTS FAIL", t[-800:]); return
        ok = True
        if "--check" in sys.argv:
            seed = sys.argv[sys.argv.index("--seed") + 1] if "--seed" in sys.argv else "1"
            vc = f"/tmp/plantverif-{pid}"
            shutil.rmtree(vc, ignore_errors=True)
            shutil.copytree("/verif", vc, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
            for prop in [spec["PROPERTY"]] + list(spec.get("ALSO", [])):
                r, t = sh(f"./check {prop} quick", cwd=vc, timeout=1500,
                          env={"VERIF_REPO": scratch, "VERIF_SEED": seed, "VERIF_TIER": "quick"})
                v = [l for l in t.splitlines() if l.startswith("VIOLATION")]
                if spec.get("SHOW"): print(t[-3000:])
                print(pid, prop, "CAUGHT" if r == 1 and v else f"MISSED rc={r}", (v or t.strip().splitlines()[-1:])[:1])
            shutil.rmtree(vc, ignore_errors=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if ok:
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(tmpout):
                shutil.copy(os.path.join(tmpout, f), os.path.join(out, f))
        shutil.rmtree(tmpout, ignore_errors=True)


main()
