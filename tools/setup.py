#!/usr/bin/env python3
"""Checks that the tools are there and every specification module parses.  Nothing needs to be built beforehand."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for t in ("java", "gcc", "clang"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
bad = 0
mods = sorted(f for f in os.listdir(vlib.SPEC) if f.endswith(".tla"))
r = subprocess.run(["java", "-cp", vlib.JARS, "tla2sany.SANY"] + mods, cwd=vlib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = r.stdout.decode(errors="replace")
if r.returncode or "***Parse Error***" in out or "*** Errors" in out:
    print(out[-3000:])
    sys.exit("a specification module does not parse")
w = tempfile.mkdtemp(prefix="imu-setup-")
try:
    vlib.build(w, ["O2"])
finally:
    shutil.rmtree(w, ignore_errors=True)
print("ready: %d specification modules" % len(mods))
