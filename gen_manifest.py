#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
NA = {
}
CLAIM = open("claimed.txt").read().split()
props = [json.loads(l) for l in open("properties.jsonl")]
todo = "not built (yet): no simulation scenario registered for it"
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam is a link-time wrap (ld --wrap), the -fsanitize=thread "
               "instrumentation callbacks, or an existing ops table", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif i in CLAIM:
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules, layouts and faults; real library code in one process)",
            "level": "exploration",
            "level_note": "seeded random search, no exhaustiveness; sequentially consistent memory; see DESIGN.md %s for oracle, stubs and bounds" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": todo})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
