#!/usr/bin/env python3
"""Offline setup: checks that the toolchain is there and that every specification parses."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "g++", "gcc", "ninja", "ar"):
    if not shutil.which(t): print("missing tool", t); sys.exit(1)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
fs = sorted(os.path.basename(f) for f in glob.glob(V + "/spec/*.tla"))
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY"] + fs, cwd=V + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or "*** Errors" in r.stdout or "Fatal errors" in r.stdout: print(r.stdout[-4000:]); sys.exit(1)
print("setup ok: %d specification modules parse" % len(fs))
