#!/usr/bin/env python3
"""plant.py ID: confirm the planted bug /verif/seeded/ID against /repo (applies, builds, tests pass, demo fails with / passes without it) and run its check."""
import json, subprocess, sys, os
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    sh("bash /opt/vp/test.sh /tmp/plant_t.json"); return set(json.load(open("/tmp/plant_t.json"))["passed"])
def demo(d): return sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
for i in sys.argv[1:]:
    nocheck = i.startswith("-"); i = i.lstrip("-")
    d = "/verif/seeded/" + i; m = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout, "dirty"
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
    r0 = demo(d)
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/build.sh")
        t = tests() if b.returncode == 0 else set()
        r1 = demo(d)
        c = None if nocheck else sh("cd /verif && python3 run.py %s" % m["property"])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    ok = r0.returncode == 0 and b.returncode == 0 and {"tools_integrator", "tools_tricubic"} <= t and r1.returncode != 0
    print("%-28s %s prop=%s %s | clean demo=%d build=%d tests=%d demo=%d check=%s" % (i, "OK  " if ok else "BAD ", m["property"],
          "" if c is None else ("CAUGHT" if c.returncode == 1 else "MISSED(%d)" % c.returncode), r0.returncode, b.returncode, len(t), r1.returncode, c and c.returncode))
    if not ok: print(r0.stdout[-600:], r1.stdout[-600:], b.stdout[-300:] if b.returncode else "")
    if c: print("    " + "\n    ".join(x[:260] for x in c.stdout.split("\n") if x.startswith(("rejected", "ERROR"))))
