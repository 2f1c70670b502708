#!/usr/bin/env python3
"""run.py FILE.py [NAME...]: try changes quickly, before they become planted bugs (or are
known not to be bugs). FILE defines T = [(name, "C01,C02", [(file, old, new)...])].
Development tool; no check uses it."""
import os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = "set -e; . /opt/vp/env.sh; "
T = runpy.run_path(sys.argv[1])["T"]
for name, props, edits in T:
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    t = tempfile.mkdtemp(prefix="trial-")
    r = os.path.join(t, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        bad = None
        for f, old, new in edits:
            s = open(os.path.join(r, f)).read()
            if s.count(old) != 1:
                bad = "matches %d times: %s" % (s.count(old), old[:50])
                break
            open(os.path.join(r, f), "w").write(s.replace(old, new))
        if not bad:
            p = subprocess.run(["bash", "-c", ENV + "go build ./... && go test -vet=off -count=1 -timeout 60s ./libcomfo"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                bad = "build/tests: " + p.stdout[-1200:]
        if bad:
            print(name, "|", bad, flush=True)
            continue
        for pr in props.split(","):
            p = subprocess.run(["./check", pr, "quick"], cwd=V, env=dict(os.environ, COMFO_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            s = [l for l in p.stdout.splitlines() if l.startswith("scenario")]
            print(name, "|", pr, {0: "MISSED", 1: "caught"}.get(p.returncode, "BROKEN " + p.stdout[-600:]), (s or [""])[0][:220], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
