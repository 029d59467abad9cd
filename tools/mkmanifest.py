#!/usr/bin/env python3
"""Writes MANIFEST.json from campaigns.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import campaigns as C
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
     "checks": [], "not_applicable": [], "notes": "Every check rebuilds its harness and the repository sources it needs from /repo's working tree into /verif/build (ignored by git). No hooks in /repo are needed: the seams are link-time (libc, libpthread, absl::Mutex header) and compile-time instrumentation."}
for i in ids:
    if i in C.PROPERTIES:
        P = C.PROPERTIES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": P.get("technique", "deterministic simulation: seeded schedule and fault search with a reference-model oracle"),
            "level": P.get("level", "exploration"), "level_note": P.get("note", "Seeded sampling of schedules and faults over the real code; a clean batch is evidence, not proof. Trusts the simulator runtime and the oracle in the harness.")})
    else:
        m["not_applicable"].append({"property": i, "reason": C.NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
