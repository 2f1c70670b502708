#!/usr/bin/env python3
"""run.py [-p C01,C02..] A+B...: runs the quick checks on a copy of /repo with refactorings A and B applied.

Every check must stay quiet. Development tool; no check uses it."""
import os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
a = sys.argv[1:]
props = ["C%02d" % i for i in range(1, 24)]
if a and a[0] == "-p":
    props, a = a[1].split(","), a[2:]
bad = 0
for combo in a or ["codec+caches+program+python", "transport+setters"]:
    d = tempfile.mkdtemp(prefix="refactor-")
    try:
        r = os.path.join(d, "r")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for n in combo.split("+"):
            subprocess.run(["git", "apply", os.path.join(HERE, n + ".patch")], cwd=r, check=True)
        for p in props:
            t = time.time()
            o = subprocess.run(["./check", p, "quick"], cwd=V, env=dict(os.environ, COMFO_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad += o.returncode != 0
            print(combo, p, o.returncode, "%d s" % (time.time() - t), o.stdout[-2500:] if o.returncode else "; ".join(l for l in o.stdout.splitlines() if "ncomplete" in l)[:200], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
sys.exit(bad > 0)
