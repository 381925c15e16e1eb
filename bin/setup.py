#!/usr/bin/env python3
"""Check that the tools are there and that the specification parses."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for t in ("gcc", "mpirun", "java"):
    bad |= subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode
for m in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", J, "tla2sany.SANY", os.path.basename(m)], cwd=os.path.join(V, "spec"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "*** Errors" in r.stdout:
        print(r.stdout[-2000:])
        bad = 1
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.exit(1 if bad else 0)
