#!/usr/bin/env python3
"""Runs the checks against planted bugs: seeded.py [ID ...] [--prop C01]  (all by default).

Applies each patch to /repo's working tree, runs the quick check of its property, and undoes the patch."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:]] or sorted(os.listdir(V + "/seeded"))
git = ["git", "-C", "/repo"]
assert not subprocess.run(git + ["status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout.strip(), "/repo is not clean"
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    subprocess.run(git + ["apply", d + "/patch.diff"], check=True)
    try:
        p = subprocess.run([sys.executable, V + "/bin/check.py", prop, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        subprocess.run(git + ["checkout", "--", "."], check=True)
    hit = p.returncode == 1 and ("VIOLATION property=%s " % prop) in p.stdout
    what = [l for l in p.stderr.split("\n") if l.startswith(("case:", "input:", "observed:", "ERROR"))]
    print("%-32s %s %s (%.0f s)" % (i, prop, "caught" if hit else "MISSED (exit %d)" % p.returncode, time.time() - t))
    for l in what[:4]:
        print("      " + l[:160])
    sys.stdout.flush()
