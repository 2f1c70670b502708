#!/usr/bin/env python3
"""run.py OUT.jsonl FILE...: which mutants of the Go files are caught. Development tool; no
check uses it. Mutants that don't compile or fail the repository's tests are left out;
for the others the checks that concern the file are run until one reports a violation."""
import json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(V, "lib"))
import driver

PROPS = {
    "libcomfo/response_types.go": "C10 C03 C12 C01",
    "libcomfo/request_types.go": "C09 C01 C05 C11",
    "libcomfo/api.go": "C09 C11 C05 C04 C08 C02 C10",
    "libcomfo/message.go": "C04 C10 C09 C01 C03",
    "libcomfo/proto.go": "C01 C03 C04 C02",
    "libcomfo/conn.go": "C04 C02 C07 C05 C06 C08 C03",
    "comfoserver/caches.go": "C12 C18 C19 C17 C16 C14 C13 C15",
    "comfoserver/server.go": "C13 C14 C15 C18 C12 C16 C17 C21 C19",
    "comfoserver/helpers.go": "C13 C21 C16",
    "comfoserver/protobuf.go": "C21 C12 C13",
    "comfoserver/timers.go": "C19 C18 C17 C12",
    "comfo.go": "C23", "config.go": "C23", "logger.go": "C21 C23", "routes.go": "C21 C23",
}
ENV = driver.env()


def filt(m):
    """Whether the mutant compiles and passes the tests."""
    t = tempfile.mkdtemp(prefix="mut-")
    try:
        apply(t, m)
        e = dict(ENV)
        if subprocess.run(["go", "vet", "-printf=false", "./..."] if False else ["go", "build", "./..."], cwd=t, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return "compile"
        if m["file"].startswith("libcomfo/"):
            try:
                if subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./libcomfo"], cwd=t, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode:
                    return "tests"
            except subprocess.TimeoutExpired:
                return "tests"
        return None
    finally:
        shutil.rmtree(t, ignore_errors=True)


def apply(t, m):
    shutil.copytree("/repo", t, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(t, m["file"])
    s = open(p, "rb").read()
    open(p, "wb").write(s[:m["off"]] + m["repl"].encode() + s[m["off"] + m["len"]:])
    subprocess.run(["git", "init", "-q"], cwd=t)


def judge(m):
    t = tempfile.mkdtemp(prefix="mut-")
    w = tempfile.mkdtemp(prefix="mutw-")
    try:
        apply(t, m)
        driver.REPO = t
        props = PROPS[m["file"]].split()
        mc = None
        for p in props:
            if p in driver.SCRIPTS:
                r = subprocess.run([os.path.join(V, "check"), p, "quick"], env=dict(os.environ, COMFO_REPO=t), stdout=subprocess.PIPE, text=True)
                if r.returncode:
                    return "%s (%d)" % (p, r.returncode)
                continue
            try:
                if mc is None:
                    mc = driver.build(w, root=True)
                reps = driver.explore(mc, p, "quick", 10, w, [], False)
            except driver.CheckError as e:
                return "%s BROKEN %s" % (p, str(e)[-300:])
            for r in reps:
                if r["violations"]:
                    return p
        # a last resort
        return "SURVIVES"
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(w, ignore_errors=True)


def main():
    out = sys.argv[1]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    ms = []
    for f in sys.argv[2:]:
        for l in subprocess.run(["/tmp/mutate", f], cwd="/repo", stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            m = json.loads(l)
            m["id"] = "%s:%d:%d:%s" % (m["file"], m["off"], m["len"], m["repl"])
            if m["id"] not in done:
                done.add(m["id"])
                ms.append(m)
    with ThreadPoolExecutor(4) as ex, open(out, "a") as o:
        for m, r in zip(ms, ex.map(filt, ms)):
            if r is None:
                r = judge(m)
            o.write(json.dumps(dict(m, result=r)) + "\n")
            o.flush()


main()
