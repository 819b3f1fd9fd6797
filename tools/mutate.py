#!/opt/veriftools/pyvenv/bin/python
"""Regression of the checks themselves: small edits of the sources that must be reported
(`fire`) or must stay quiet (`quiet`).

  mutate.py [-k substring] [-j n] [-a] [-v]     (-a: quiet edits against every property whose
  check analyses an edited file)

Each entry of tools/mutants/*.py is (kind, property or properties, name, [(file, old, new), ...])."""
import concurrent.futures as cf
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")


def all_props():
    sys.path.insert(0, str(HERE.parent))
    from flowlint.checks.registry import PROPERTIES
    return list(PROPERTIES)


def relevant(edits):
    """properties whose last evidence analysed a function of an edited file"""
    mods = {"flowMC." + f[:-3].replace("/", ".") + "." for f, _, _ in edits}
    out = []
    for pid in ALL:
        try:
            names = json.loads((HERE.parent / "evidence" / f"{pid}.json").read_text())["coverage"]["function_names"]
        except FileNotFoundError:
            out.append(pid)
            continue
        if pid in ("C22", "C24", "C25", "C27") or any(n.startswith(m) for n in names for m in mods):
            out.append(pid)
    return out


def one(entry):
    kind, props, name, edits = entry
    if kind == "quiet" and "-a" in sys.argv:
        props = relevant(edits)
    props = [props] if isinstance(props, str) else list(props)
    d = tempfile.mkdtemp(prefix="mut-")
    out = []
    try:
        shutil.copytree(REPO / "src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = pathlib.Path(d, "src/flowMC", f)
            s = p.read_text()
            if old not in s:
                return [(kind, props[0], name, "STALE", f"{f}: text not found: {old[:60]}")]
            s = s.replace(old, new)
            p.write_text(s)
        for f in {f for f, _, _ in edits}:
            try:
                compile(pathlib.Path(d, "src/flowMC", f).read_text(), f, "exec")
            except SyntaxError as ex:
                return [(kind, props[0], name, "STALE", f"{f}: {ex}")]
        for pid in props:
            r = subprocess.run([sys.executable, str(HERE.parent / "check.py"), pid, "--no-evidence"],
                               capture_output=True, text=True, env=dict(os.environ, FLOWLINT_REPO=d))
            want = 1 if kind == "fire" else 0
            verdict = "good" if r.returncode == want else "BAD "
            if kind == "quiet" and verdict == "good" and "[undecided]" in r.stdout:
                verdict = "und "
            first = [l for l in r.stdout.splitlines() if l.startswith(("[violated]", "[undecided]"))] or r.stderr.splitlines()[-1:]
            und = sum(l.startswith("[undecided]") for l in r.stdout.splitlines())
            out.append((kind, pid, name, verdict, f"exit {r.returncode} und {und} " + (first[0][:200] if first else "")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


ALL = all_props()


def main():
    a = sys.argv[1:]
    sub = a[a.index("-k") + 1] if "-k" in a else ""
    jobs = int(a[a.index("-j") + 1]) if "-j" in a else 6
    es = []
    for f in sorted((HERE / "mutants").glob("*.py")):
        for e in runpy.run_path(str(f))["MUTANTS"]:
            if sub in f"{f.stem} {e[0]} {e[1]} {e[2]}":
                es.append(e)
    bad = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rs in ex.map(one, es):
            for kind, pid, name, verdict, msg in rs:
                if verdict not in ("good", "und "):
                    bad += 1
                if verdict != "good" or "-v" in a:
                    print(verdict, kind, pid, name, "::", msg, flush=True)
    print(len(es), "edits,", bad, "not as expected")
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
