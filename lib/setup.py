#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are present and that every specification parses."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for tool in ("g++", "java"):
    if subprocess.run([tool, "--version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: bad += 1; print("missing", tool)
for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "*** Errors" in r.stdout: bad += 1; print("does not parse:", f, r.stdout[-800:])
print("setup:", "ok" if not bad else "%d problems" % bad)
sys.exit(1 if bad else 0)
