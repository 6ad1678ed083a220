#!/usr/bin/env python3
"""Setup: parses every specification and warms the Go build cache; nothing is kept under /verif."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for tool in (vlib.GO, "/opt/veriftools/tla/tla2tools.jar"):
    if not os.path.exists(tool):
        sys.exit("missing " + tool)
r = subprocess.run([vlib.GO, "build", "./..."], cwd=vlib.REPO, env=vlib.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(r.stdout[-2000:], "go build:", r.returncode)
bad = []
for f in sorted(os.listdir(vlib.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", os.path.join(vlib.SPEC, f)], cwd=vlib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout:
            bad.append(f)
            print(r.stdout[-2000:])
print("specifications parsed;", "bad: %s" % bad if bad else "all good")
sys.exit(1 if bad else 0)
