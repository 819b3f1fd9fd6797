"""Driver of one check: runs the obligations of a property, prints verdicts, writes evidence."""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(200000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = ("terms.py", "interp.py", "lib.py", "project.py")


def known_findings(pid):
    """[(key, text)] of the recorded, unrepaired findings of a property"""
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=" + pid + " "):
                    body = line[len("known: property=" + pid + " "):]
                    k, _, what = body.partition(" :: ")
                    out.append((k.strip(), what.strip()))
    except FileNotFoundError:
        pass
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    from .checks import registry
    from .checks.base import Ctx, OK, BAD, UND, txt
    from .project import AnchorMissing
    pid = a.property
    P = registry.PROPERTIES[pid]
    ctx = Ctx(pid)
    ctx.tier = a.tier
    broken = None
    for rule in P.rules:
        n0 = len(ctx.obs)
        ctx.rule = rule.__name__
        try:
            rule(ctx)
        except AnchorMissing as e:
            broken = f"{rule.__name__}: {e}"
            print(f"ANALYSIS-INCOMPLETE property={pid} rule={rule.__name__}: anchor missing: {e}")
            ctx.und(rule.__name__, "-", f"anchor missing: {e}")
        except Exception as e:           # an unmodelled construct: this rule gives no answer
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.und(rule.__name__, "-", f"the rule could not be evaluated: {type(e).__name__}: {e} "
                                        f"({os.path.basename(tb.filename)}:{tb.lineno})")
            if a.v:
                traceback.print_exc()
        if len(ctx.obs) == n0 and broken is None:
            broken = f"{rule.__name__}: no instance found"
            print(f"ANALYSIS-INCOMPLETE property={pid} rule={rule.__name__}: no instance found")
    held = [o for o in ctx.obs if o.status == OK]
    bad = [o for o in ctx.obs if o.status == BAD]
    und = [o for o in ctx.obs if o.status == UND]
    known = known_findings(pid)
    fresh_bad, known_hit = [], []
    for o in bad:
        hit = next((k for k in known if k[0] == o.key()), None)
        (known_hit if hit else fresh_bad).append((o, hit))
    for o in ctx.obs:
        if a.v or o.status != OK:
            print(f"[{o.status}] {o.rule} @ {o.where}: {o.detail}")
            if o.status == BAD:
                if o.found is not None:
                    print("    found:    " + txt(o.found).replace("\n", "\n              "))
                if o.want is not None:
                    print("    required: " + txt(o.want).replace("\n", "\n              "))
    for o, k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k[1]} [{o.key()}]")
    for o, _ in fresh_bad:
        h = hashlib.sha256(o.key().encode()).hexdigest()[:10]
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(ROOT, "evidence", "replay", f"{pid}-{h}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}: {P.title}\nrule: {o.rule}\nconstruct: {o.where}\nwhy: {o.detail}\n")
            if o.found is not None:
                f.write("found:\n" + txt(o.found, 20000) + "\n")
            if o.want is not None:
                f.write("required:\n" + txt(o.want, 20000) + "\n")
            f.write(f"replay: /verif/check.py {pid} -v\n")
        print(f"VIOLATION property={pid} replay={rp}")
    wall = time.time() - t0
    cov = {
        "explanation": P.technique + ". " + P.explain,
        "obligations": len(ctx.obs),
        "discharged": len(held),
        "undecided": len(und),
        "violated": len(bad),
        "known_findings": len(known_hit),
        "rules": sorted({r.__name__ for r in P.rules}),
        "functions_analysed": len(ctx.functions),
        "function_names": sorted(ctx.functions),
        "program_points_evaluated": ctx.sites,
        "modules_parsed": len(ctx.p.modules),
        "unmodelled_constructs": [str(u)[:200] for u in ctx.unks][:40],
        "samples": [{"rule": o.rule, "construct": o.where, "status": o.status, "detail": o.detail[:300]}
                    for o in ctx.obs][:60],
    }
    for k, v in getattr(ctx, "extra", {}).items():
        cov[k] = v
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": "other", "coverage": cov,
        "assumptions": P.assumptions, "wall_s": round(wall, 3), "violations": len(fresh_bad),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {len(held)} obligations hold, {len(bad)} violated ({len(known_hit)} recorded), "
          f"{len(und)} undecided; {len(ctx.functions)} functions, {ctx.sites} program points, {wall:.1f}s")
    if fresh_bad:
        return 1
    if not held:
        print(f"UNDECIDED property={pid}: no obligation could be decided on this tree")
    return 2 if broken and not held else 0     # 2: what the property is anchored on is not there
