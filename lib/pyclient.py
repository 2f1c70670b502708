"""C22: the Python client."""
import json, os, subprocess, sys, time

import driver

LIB = os.path.dirname(os.path.abspath(__file__))

ASSUME = [
    "google.protobuf and twirp are not installed here: the client runs on stand-ins (lib/pystubs) written from the Protobuf specification and the behaviour of twirp 0.0.3",
    "a call that takes its request to the transport in a thread other than the event loop's does not block the loop; the loop is asked to run a callback while every request is waiting",
]


def prepare(work):
    tree = os.path.join(work, "tree")
    os.makedirs(tree, exist_ok=True)
    driver.copy_repo(tree)
    return tree


def python(script, job, work, name, timeout):
    j, o = os.path.join(work, name + ".json"), os.path.join(work, name + ".out.json")
    json.dump(job, open(j, "w"))
    e = {k: v for k, v in driver.env().items() if not k.startswith("PYTHON")}
    err = open(os.path.join(work, name + ".err"), "wb")
    p = subprocess.Popen([sys.executable, "-B", os.path.join(LIB, script), j, o], cwd=work, env=e, stdout=err, stderr=err, start_new_session=True)
    return p, o, os.path.join(work, name + ".err")


def finish(p, o, err, timeout):
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise driver.CheckError("%s did not end" % err)
    if rc != 0 or not os.path.exists(o):
        raise driver.CheckError("%s ended with %d: %s" % (err, rc, open(err, errors="replace").read()[-3000:]))
    return json.load(open(o))


def build_program(tree, work):
    out = os.path.join(work, "comfo-bin")
    driver.run(["go", "build", "-trimpath", "-o", out, "."], tree, driver.env())
    return out


def base(tree):
    return dict(stubs=os.path.join(LIB, "pystubs"), python=os.path.join(tree, "python"), lib=LIB)


def importable(tree, work):
    """A client that cannot even be imported or constructed is broken."""
    code = "import sys; sys.path[:0]=%r; import comfo; comfo.Comfo('x')" % [os.path.join(LIB, "pystubs"), os.path.join(tree, "python")]
    p = subprocess.run([sys.executable, "-B", "-c", code], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout.decode(errors="replace")[-1500:]


def check(prop, tier, work):
    tree = prepare(work)
    ok, text = importable(tree, work)
    if not ok:
        return dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[text]), [dict(property=prop, key="import", msg=text, scenario="import", deviations=[])], ASSUME
    binary = build_program(tree, work)
    n = 8
    budget = 150 if tier == "quick" else 600
    ps = [python("pyclient_run.py", dict(base(tree), tier=tier, shard=i, shards=n, budget=budget), work, "shard%d" % i, 0) for i in range(n)]
    conf = python("pyclient_conf.py", dict(base(tree), binary=binary, log=os.path.join(work, "server.log")), work, "conf", 0)
    t0 = time.time()
    reps = [finish(*p, timeout=max(1, budget + 200 - (time.time() - t0))) for p in ps]
    viols = [dict(property=prop, key=v["key"], msg=v["msg"], case=v["case"], scenario=(v["case"] or {}).get("kind", "constants"), deviations=[]) for r in reps for v in r["violations"]]
    try:
        cr = finish(*conf, timeout=200)
    except driver.CheckError:
        if not viols:
            raise
        cr = dict(violations=[], traces=0, samples=[])
    viols += [dict(property=prop, key=v["key"], msg=v["msg"], case=None, scenario="real server", deviations=[]) for v in cr["violations"]]
    outs = set(o for r in reps for o in r["outcomes"])
    by = {}
    for r in reps:
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
    ex = sum(r["executions"] for r in reps)
    cov = dict(
        states=len(outs), transitions=sum(r["transitions"] for r in reps), traces_validated_against_impl=cr["traces"],
        evaluations=ex, distinct_nontrivial=len(outs), executions_by_kind=by, repeated_identically=sum(r["repeated"] for r in reps),
        rule="every method x arguments x answers of the server, synchronous and asynchronous; every pair (and chosen fours) of asynchronous calls under way together x every order of their answers. "
             "states: distinct (kind of case, method, outcome); transitions: calls started, requests answered, calls ended; traces_validated_against_impl: calls made against the real server program with a simulated unit",
        exhaustive=all(r["complete"] for r in reps),
        samples=[s for r in reps[:3] for s in r["samples"][:3]] + cr["samples"])
    print("C22: %d cases (%s), %d outcomes, %d calls against the real server" % (ex, by, len(outs), cr["traces"]))
    return cov, viols, ASSUME


def replay(v, work):
    tree = prepare(work)
    if v.get("case"):
        r = finish(*python("pyclient_run.py", dict(base(tree), case=v["case"]), work, "replay", 0), timeout=200)
        print(json.dumps(v["case"]))
        print(json.dumps(r, indent=1))
        return 1 if r["violation"] else 0
    cov, viols, _ = check(v["property"], "quick", work)
    for x in viols:
        print(x["key"], x["msg"])
    return 1 if viols else 0
