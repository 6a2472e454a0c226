#!/usr/bin/env python3
"""Write MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from jobs import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": P.get("technique", "runtime monitoring: instrumented real code on a deterministic hostile scheduler, online/offline trace oracles"),
            "level": P["level"],
            "level_note": P.get("note", "Holds on the executions explored (seeded, replayable); trusts the models of the OS primitives in vrt and the oracles in h/."),
        })
    else:
        na.append({"property": i, "reason": "the technique applies, but the check is not finished yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the machinery observes the unmodified headers through compiler instrumentation and interposed OS calls. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
