#!/usr/bin/env python3
"""plant.py ID [PROP..]: try the planted bug seeded/ID on /repo: build, stable tests,
demo, and the checks of its property (or PROP..); always undoes the change."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]; d = os.path.join(V, "seeded", i)
meta = json.load(open(d + "/meta.json"))
props = sys.argv[2:] or [meta["property"]]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == b"", "repo not clean"
quick = "-q" in props; props = [p for p in props if p != "-q"] or [meta["property"]]
try:
    if not quick:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
        p = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); print("demo unchanged:", p.returncode, p.stdout.decode(errors="replace")[-200:].strip())
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print("APPLY FAILED", a.stdout.decode()); sys.exit(1)
    if not quick:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print("BUILD FAILED", b.stdout.decode()[-2000:]); sys.exit(1)
        t = sh("bash /opt/vp/test.sh /tmp/plant-out.json")
        base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/plant-out.json"))
        want = base.get("passed") or base.get("stable") or base
        miss = sorted(set(want) - set(out["passed"]))
        print("tests missing:", len(miss), miss[:5])
        b = sh("bash /opt/vp/build.sh")
        p = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); print("demo patched:", p.returncode, p.stdout.decode(errors="replace")[-300:].strip())
    for pr in props:
        t0 = time.time(); c = sh("python3 %s/check.py run %s" % (V, pr), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        print(pr, "rc", c.returncode, "%.0fs" % (time.time() - t0), c.stdout.decode(errors="replace")[-700:].strip())
finally:
    sh("git -C /repo checkout -- ."); 
    if not quick: sh("bash /opt/vp/build.sh")
