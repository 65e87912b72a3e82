#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
NA = {
 "C18": "Sequential and pure: the verdict on a program depends on its text alone. There is no schedule, clock, I/O, fault or history for a simulator to control, and an oracle would be a second type checker. C04 accepts its generated well-typed programs, C17 runs damaged ones for crashes, but neither decides this.",
}
TODO = "Planned; the simulator for it is not built yet."
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
m = {
 "version": 1,
 "setup_cmd": "python3 check.py build",
 "hooks": {"guard": "FBLE_SIM", "enable": "check.py compiles /repo's sources with -DFBLE_SIM into /verif/build; the repository's own build never defines it", "source_commits": [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hooks:")]},
 "checks": [], "not_applicable": [],
 "notes": "python3 check.py replay FILE [--trace] re-executes a violation; python3 check.py only ID N re-executes run N of VERIF_SEED.",
}
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py run %s" % i, "thorough_cmd": "python3 check.py run %s --thorough" % i,
          "technique": "deterministic simulation with fault injection: " + s.get("technique", ""), "level": s["level"], "level_note": s.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, TODO)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in m["checks"]])
