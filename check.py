#!/usr/bin/env python3
"""Decide one property of /repo's current tree: check.py <property id>."""
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "rules")]


CPU_S = 480  # of analysis, some ten times what the slowest rule takes
MEM = 14 << 30


class OutOfBudget(BaseException):
    pass


def budget():
    """A summary which grows without end shows nothing: fail closed rather than give no answer."""

    def stop(*_):
        raise OutOfBudget(f"not settled after {CPU_S} s of analysis")

    signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, CPU_S, 5)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))


def known_findings(pid):
    out = set()
    try:
        for line in open(os.path.join(V, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.add(line.split(" key=", 1)[1].split(" :: ")[0])
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    import extract

    try:
        path = extract.facts()
    except extract.BuildFailed as e:
        print(e)
        return 2
    from ir import Prog, MissingAnchor
    from rulelib import Ctx

    sys.setrecursionlimit(50000)
    prog = Prog(path)
    rule = importlib.import_module(pid.lower())
    ctx = Ctx(pid, prog, tier)
    budget()
    try:
        rule.run(ctx)
    except MissingAnchor as e:
        ctx.ob("anchor:" + e.what, False, f"the code this property rests on is missing: {e}")
    except (OutOfBudget, Exception) as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = traceback.format_exc()
        if os.environ.get("VERIF_DEBUG"):
            print(tb)
        ctx.ob("analysis", False, f"the analysis cannot establish the property: {type(e).__name__}: {e}; {tb[-900:]}")
    signal.setitimer(signal.ITIMER_PROF, 0)
    n = len(ctx.obs)
    floor = getattr(rule, "FLOOR", 1)
    if n < floor and all(ok for _, ok, _, _ in ctx.obs):
        ctx.ob("floor", False, f"only {n} rule instances found, {floor} expected")
    bad = [o for o in ctx.obs if not o[1]]
    known = known_findings(pid)
    new = [o for o in bad if o[0] not in known]
    for o in bad:
        if o[0] in known:
            print(f"KNOWN-FINDING: property={pid} {o[0]} {o[3][:200]}")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cov = {
        "explanation": rule.EXPLANATION,
        "obligations": n,
        "discharged": n - len(bad),
        "functions_analysed": len(ctx.analysed),
        "samples": [
            {"rule": k, "holds": ok, "where": w, "detail": m[:300]} for k, ok, w, m in ctx.obs[:: max(1, n // 12)]
        ],
        "functions": sorted(ctx.analysed)[:400],
        "bodies_in_crate": len(prog.bodies),
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": getattr(rule, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {n} obligations, {len(bad)} not met, {len(ctx.analysed)} functions analysed, {ev['wall_s']} s")
    if new:
        rp = os.path.join(V, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, ok, w, m in new:
                f.write(f"rule {k}\n  at {w}\n  {m}\n")
        for k, ok, w, m in new[:8]:
            print(f"  rule {k} at {w}: {m[:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
