"""Makes and confirms planted bugs (development tool; no check uses it).

seed(id, prop, [(file, old, new), ...], demo, needs, breaks) writes seeded/<id>/;
confirm(id) checks in a scratch copy that the patch applies, the demo passes on the
unchanged tree and fails on the changed one, and the stable tests still pass."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SRC = "src/flowMC/"
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
DEMO = '''#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def seed(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seedmk.")
    try:
        run(["cp", "-a", "/repo/.", w])
        for f, old, new in edits:
            p = os.path.join(w, SRC + f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{sid}: {s.count(old)} matches of {old!r} in {f}")
            open(p, "w").write(s.replace(old, new))
        r = run(["git", "diff"], cwd=w)
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(sid, tests=True):
    d = os.path.join(SEEDED, sid)
    w = tempfile.mkdtemp(prefix="seedck.")
    out = []
    try:
        r = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=ENV)
        if r.returncode:
            return f"{sid}: demo fails on the clean tree\n{r.stdout[-1500:]}{r.stderr[-1500:]}"
        run(["cp", "-a", "/repo/.", w])
        r = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w)
        if r.returncode:
            return f"{sid}: patch does not apply: {r.stderr}"
        env = dict(ENV, PYTHONPATH=w + "/src")
        r = run(["bash", os.path.join(d, "demo.sh")], cwd=w, env=env)
        if r.returncode == 0:
            return f"{sid}: demo passes with the patch"
        out.append(f"{sid}: demo ok ({(r.stdout + r.stderr).strip().splitlines()[-1][:100]})")
        if tests:
            sh = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {w}") \
                .replace(". /opt/vp/support/env.sh", f". {w}/env.sh")
            e = open("/opt/vp/support/env.sh").read().replace("/repo", w).replace(
                "unset PYTHONPATH", f"export PYTHONPATH={w}/src")
            open(w + "/env.sh", "w").write(e)
            open(w + "/t.sh", "w").write(sh)
            run(["bash", w + "/t.sh", w + "/o.json"], env=env)
            res = json.load(open(w + "/o.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            flat = json.dumps(res)
            passed = set(res.get("passed", []))
            bad = sorted(stable - passed)
            out.append(f"  tests: {len(stable & passed)}/{len(stable)}" + (f" FAIL {bad}" if bad else ""))
    finally:
        shutil.rmtree(w)
    return "\n".join(out)


def detect(sid):
    """which checks catch the seed (runs them on a copy, through FLOWLINT_REPO)"""
    d = os.path.join(SEEDED, sid)
    w = tempfile.mkdtemp(prefix="seeddt.")
    hits = []
    try:
        run(["cp", "-a", "/repo/.", w])
        run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w)
        ids = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
        env = dict(os.environ, FLOWLINT_REPO=w)
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda i: run([os.path.join(ROOT, "check.py"), i, "--no-evidence"], env=env), ids))
        for i, r in zip(ids, rs):
            if r.returncode:
                hits.append(i if r.returncode == 1 else f"{i}(rc{r.returncode})")
    finally:
        shutil.rmtree(w)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    return f"{sid} [{prop}] {'CAUGHT' if prop in hits else 'MISSED'}: {' '.join(hits)}"


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    f = {"confirm": confirm, "demo": lambda s: confirm(s, False), "detect": detect}[cmd]
    with ThreadPoolExecutor({"confirm": 2}.get(cmd, 3)) as ex:
        for r in ex.map(f, ids):
            print(r, flush=True)
