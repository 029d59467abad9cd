#!/usr/bin/env python3
"""Set-up: builds the simulator's self test and shows that it is deterministic
and finds the planted toy bugs (race, deadlock, lost wake-up)."""
import os, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import build as B
exe, _ = B.build("selftest")
want = {0: None, 1: "race:", 2: "liveness:deadlock", 3: "liveness:deadlock", 4: None}
env = dict(os.environ); env.pop("SIM_REEXEC", None)
for which, w in want.items():
    outs = []
    for rep in range(2):
        o = subprocess.run([exe, "--first", "1", "--count", "200", "--stop-after", "1000000", "--param", "which=%d" % which],
                           capture_output=True, text=True, env=env).stdout
        rs = [json.loads(l, strict=False) for l in o.splitlines()]
        outs.append([(r["seed"], r["status"], r["cls"], r["hash"]) for r in rs])
    assert outs[0] == outs[1] and len(outs[0]) == 200, "not deterministic: %d" % which
    bad = [x for x in outs[0] if x[1] != 1]
    if w is None: assert not bad, bad[:3]
    else: assert bad and all(x[2].startswith(w) for x in bad), bad[:3]
    print("toy program", which, "ok:", len(bad), "of 200 runs fail")
