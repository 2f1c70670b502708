#!/usr/bin/env python3
"""seed.py [-c] ID...: try planted bugs in scratch copies of /repo.

For each: the patch applies, the tree builds, the stable tests pass, the demonstration
passes without and fails with the patch. With -c the check of its property is run, too
(or those given as ID:C01,C02). Development tool; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "set -e; . /opt/vp/env.sh; "


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(arg, check):
    sid, _, props = arg.partition(":")
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="seed-")
    demo = tempfile.mkdtemp(prefix="seeddemo-")
    res = []
    try:
        for f in os.listdir(d):
            if f != "meta.json" and not f.endswith((".diff", ".patch")):
                shutil.copy(os.path.join(d, f), demo)
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        build = ENV + "go build ./... && CGO_ENABLED=0 go build -o comfo . && python3 -m compileall -q python"
        if sh(build, r).returncode:
            return sid, "does not build unpatched"
        p = sh("bash %s/demo.sh" % demo, r)
        if p.returncode:
            return sid, "demo fails unpatched: " + p.stdout[-1500:]
        p = sh("git apply %s/patch.diff" % d, r)
        if p.returncode:
            return sid, "patch does not apply: " + p.stdout
        p = sh(build, r)
        if p.returncode:
            return sid, "does not build: " + p.stdout[-1500:]
        for _ in range(3):
            p = sh(ENV + "go test -vet=off -count=1 -timeout 60s -p 1 ./...", r)
            if p.returncode == 0:
                break
        if p.returncode:
            return sid, "tests fail: " + p.stdout[-1500:]
        p = sh("bash %s/demo.sh" % demo, r, timeout=300)
        if p.returncode == 0:
            return sid, "demo passes patched"
        res.append("ok")
        if check:
            for pr in (props or meta["property"]).split(","):
                e = dict(os.environ, COMFO_REPO=r)
                p = sh("./check %s quick" % pr, V, env=e)
                v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
                s = [l for l in p.stdout.splitlines() if l.startswith("scenario")]
                res.append("%s: %s %s" % (pr, {0: "MISSED", 1: "caught"}.get(p.returncode, "BROKEN " + p.stdout[-800:]), s[0][:160] if s and v else ""))
        return sid, "; ".join(res)
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    check = "-c" in a
    a = [x for x in a if x != "-c"] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(1 if check else 4) as ex:
        for sid, r in ex.map(lambda x: one(x, check), a):
            print(sid, "|", r, flush=True)
