#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties_map.py."""
import json, os
from properties_map import CHECKS, COMMON
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for i, c in CHECKS.items():
        assert len(c["title"]) <= 80, c["title"]
        f.write(json.dumps({
            "id": i, "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["quant"]},
            "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]],
                        "observe_at": ["public API of the crate (client, pool, server builder)", "bytes on the modelled TCP connections"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "bounded symbolic execution of the compiled code (LLVM IR) with Z3",
        "level": "model_checking",
        "level_note": "Solver-decided for every value within the bounds: %s. Outside: %s. Assumes: %s." % (c["bounds"], c["outside"], "; ".join(COMMON)),
    } for i, c in CHECKS.items()],
    "not_applicable": [],
    "notes": "No hooks: the checks use only the public API. See DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

t = []
for i, c in CHECKS.items():
    t.append("### %s %s\n" % (i, c["title"]))
    t.append(c["statement"] + "\n")
    t.append("*Decided by* symbolic execution of: " + ", ".join("`%s`" % e["entry"] for e in c["entries"]) + ".  ")
    t.append("*Every value of:* %s.  " % c["bounds"])
    t.append("*Outside:* %s.  " % c["outside"])
    t.append("*Beyond the tests because* %s.\n" % c["why"])
d = open(V + "/DESIGN.md").read()
b, e = "<!-- generated by gen.py: begin -->\n", "<!-- generated by gen.py: end -->"
i, j = d.index(b) + len(b), d.index(e)
open(V + "/DESIGN.md", "w").write(d[:i] + "\n".join(t) + d[j:])
