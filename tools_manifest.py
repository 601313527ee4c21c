#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and the rules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "rules")]
NA = {
    "C30": "Round-trip equality of rendering and parsing quantifies over runtime values (string escapes, decimals, dates) "
           "through two independent implementations; the static parts are decided under C22 (every component is rendered) "
           "and C27/C06 (what the grammar accepts and where it puts it). It is also false today for strings with escapes.",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    pid = d["id"]
    if os.path.exists(os.path.join(V, "rules", pid.lower() + ".py")):
        m = importlib.import_module(pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": getattr(m, "TECHNIQUE", "path-sensitive dataflow over the type-checked program (THIR), compared with decision tables"),
            "level": "other",
            "level_note": m.LEVEL_NOTE if hasattr(m, "LEVEL_NOTE") else
                "Static: decided from the type-checked program (THIR with resolved callees) on every path, for all inputs; "
                "nothing is run. Trusts the fact extractor, the evaluator's models of std/chumsky functions, and: "
                + "; ".join(m.ASSUMPTIONS),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check built yet.")})
out = {
    "version": 1,
    "setup_cmd": "python3 engine/extract.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks share one fact extraction (rustc driver over /repo/src, cached under .build by content digest).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
