#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and crates.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
crates = json.load(open(V + "/crates.json"))
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the harness crates use the public API of the crates in /repo", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in crates:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "symbolic execution of the LLVM IR of the real crates, z3 deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "bounded: holds for every value of the symbolic inputs within the per-job bounds listed in evidence (job tables in harness/); see DESIGN.md"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
