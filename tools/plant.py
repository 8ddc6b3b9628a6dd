#!/usr/bin/env python3
"""
Makes and validates a planted bug from a description file (a Python file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = python source):

    plant.py spec.py [--check]

A scratch copy of /repo gets the edits; the stable tests have to pass and the demo to
fail there, and the demo has to pass in /repo. Then seeded/<ID>/ is written.
--check runs the quick check of the property on the scratch copy, with FGS_REPO.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

DEMO_SH = """#!/bin/bash
# Run with cwd = the repository: exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def main(spec, check):
    s = runpy.run_path(spec)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    work = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(work, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        ver = "/repo/freegs/_version.py"
        if os.path.exists(ver) and not os.path.exists(copy + "/freegs/_version.py"):
            shutil.copy(ver, copy + "/freegs/_version.py")
        for fn, old, new in s["EDITS"]:
            path = os.path.join(copy, fn)
            text = open(path).read()
            if text.count(old) != 1:
                print(s["ID"], "FAILED: text found", text.count(old), "times in", fn, ":", old[:60])
                return 1
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], check=True, capture_output=True, text=True).stdout
        out = os.path.join(HERE, "seeded", s["ID"])
        os.makedirs(out, exist_ok=True)
        with open(out + "/patch.diff", "w") as f:
            f.write(diff)
        with open(out + "/demo.py", "w") as f:
            f.write(s["DEMO"])
        with open(out + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, f, indent=1)
            f.write("\n")
        e2 = dict(env, PYTHONPATH=copy)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "freegs"], cwd=copy, env=e2,
                           capture_output=True, text=True)
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
        bad = subprocess.run(["bash", out + "/demo.sh"], cwd=copy, env=env, capture_output=True, text=True)
        ok = t.returncode == 0 and good.returncode == 0 and bad.returncode != 0
        print(s["ID"], s["PROPERTY"], "VALID" if ok else "INVALID", "| tests:", tests,
              "| demo clean", good.returncode, "planted", bad.returncode)
        if not ok:
            print(t.stdout[-1500:] if t.returncode else "", good.stdout[-800:], good.stderr[-1500:], bad.stdout[-300:], bad.stderr[-600:])
            shutil.rmtree(out)
            return 1
        if check:
            c = subprocess.run(["bash", os.path.join(HERE, "check.sh"), s["PROPERTY"], "quick"],
                               env=dict(env, FGS_REPO=copy), capture_output=True, text=True)
            lines = [l for l in c.stdout.splitlines() if not l.startswith(("WARN", "PLEASE"))]
            print("   check exit", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED")
            for l in lines[:6]:
                print("     ", l[:220])
            if c.returncode not in (0, 1):
                print(c.stderr[-1500:])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    check = "--check" in sys.argv
    rc = 0
    for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
        rc |= main(spec, check)
    sys.exit(rc)
