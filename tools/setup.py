#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks use are there and that the
committed specifications parse.  Checks build everything else themselves."""
import os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for t in ("g++", "gfortran", "m4", "java"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(f for f in os.listdir(os.path.join(V, "spec")) if f.endswith(".tla"))
r = subprocess.run(["java", "-cp", TLA, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
if r.returncode or "*** Errors" in r.stdout:
    print(r.stdout[-4000:]); sys.exit(1)
os.makedirs(os.path.join(V, "build"), exist_ok=True)
print("setup: %d modules parsed" % len(mods))
