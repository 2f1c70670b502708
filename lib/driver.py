import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COMFO_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
MODULE = "github.com/ti-mo/comfo"

# Properties that need the race detector / the root package, and those with a driver of
# their own.
RACE = {"C20"}
ROOT = {"C20", "C21"}
SCRIPTS = {"C22": "pyclient", "C23": "startup"}

GODIR = "/opt/veriftools/go1.27.3/bin"


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO", "COMFO_")) or k in ("GOCACHE",)}
    e["PATH"] = (GODIR + ":" if os.path.isdir(GODIR) else "") + "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["HOME"] = os.environ.get("HOME") or "/root"
    e["GOPATH"] = "/root/go"
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOSUMDB"] = "off"
    e["GOWORK"] = "off"
    e["GOENV"] = "off"
    e["GOFLAGS"] = "-mod=mod -buildvcs=false"
    return e


class CheckError(Exception):
    pass


def run(cmd, cwd, e=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise CheckError("%s failed (%d):\n%s\n%s" % (" ".join(cmd), p.returncode, p.stdout.decode(errors="replace")[-4000:], p.stderr.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def repo_files():
    try:
        out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=True).stdout.decode()
        files = [f for f in out.split("\0") if f]
        if files:
            return files
    except (OSError, subprocess.CalledProcessError):
        pass
    files = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x != ".git"]
        files += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    return files


def copy_repo(dst):
    """Copy the working tree of /repo, test files left out."""
    for f in repo_files():
        src = os.path.join(REPO, f)
        if f.endswith("_test.go") or not os.path.isfile(src):
            continue
        to = os.path.join(dst, f)
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copyfile(src, to)


ROOTGO = '''package main

import (
	"net/http"
	"os"

	"MODULE/zzverif/harness"
)

// Runs before the init functions of the package, which parse the command line.
var _ = zzStart()

func zzStart() int {
	harness.Router = func() http.Handler { return %s }
	%s
	os.Exit(harness.Main(os.Args[1:]))
	return 0
}
'''.replace("MODULE", MODULE)


def router_expr(tree):
    """How the program's HTTP handler is obtained: NewRouter(), or whatever it is called."""
    text = ""
    for f in sorted(os.listdir(tree)):
        if f.endswith(".go"):
            with open(os.path.join(tree, f), errors="replace") as h:
                text += h.read() + "\n"
    found = re.findall(r"(?m)^func (\w+)\(\) *\(?(?:\w+ )?(?:\*mux\.Router|http\.Handler|\*http\.ServeMux)\)? *\{", text)
    return min(found, key=lambda n: (n != "NewRouter", n)) + "()" if found else "NewRouter()"


def build(work, race=False, root=False):
    """Rewrite a copy of the tree onto the controlled runtime and build the checker."""
    if root:
        try:
            return build1(work, race, root, True)
        except CheckError:
            # package main may do what cannot be put under control (signals, for instance)
            shutil.rmtree(os.path.join(work, "tree"), ignore_errors=True)
        try:
            return build1(work, race, root, False)
        except CheckError:
            if not race:
                raise
            # the libraries are checked without it
            shutil.rmtree(os.path.join(work, "tree"), ignore_errors=True)
            root = False
    return build1(work, race, root, False)


def build1(work, race, root, main, litmus=False):
    e = env()
    rw = os.path.join(work, "rewrite")
    run(["go", "build", "-trimpath", "-o", rw, "."], os.path.join(ENGINE, "rewrite"), e)
    cp = os.path.join(work, "tree")
    os.makedirs(cp)
    copy_repo(cp)
    if litmus:
        shutil.copytree(os.path.join(ENGINE, "litmus"), os.path.join(cp, "zzlitmus"))
        run(["go", "build", "-trimpath", "-o", os.path.join(work, "native"), "./zzlitmus/native"], cp, e)
        shutil.rmtree(os.path.join(cp, "zzlitmus", "native"))
    pkgs = run([rw] + ["-main"] * main + ["."], cp, e).split()
    zz = os.path.join(cp, "zzverif")
    for d in ("vrt", "vsync", "vtime", "vatomic", "vcontext", "harness", "cmd"):
        shutil.copytree(os.path.join(ENGINE, d), os.path.join(zz, d))
    if litmus:
        shutil.move(os.path.join(cp, "zzlitmus", "harness.go.txt"), os.path.join(zz, "harness", "zz_litmus.go"))
    os.makedirs(os.path.join(zz, "resets"))
    with open(os.path.join(zz, "resets", "resets.go"), "w") as f:
        libs = [p for p in pkgs if p != MODULE]
        f.write("package resets\n\nimport (\n")
        for i, p in enumerate(libs):
            f.write('\tp%d "%s"\n' % (i, p))
        f.write(")\n\nfunc All() {\n")
        for i, p in enumerate(libs):
            f.write("\tp%d.ZZReset()\n" % i)
        f.write("}\n")
    out = os.path.join(work, "mc")
    cmd = ["go", "build", "-trimpath", "-o", out]
    if race:
        e["CGO_ENABLED"] = "1"
        cmd += ["-race"]
        for d in ("vrt", "vsync", "vtime", "vcontext", "harness"):
            cmd += ["-gcflags=%s/zzverif/%s=-race=false" % (MODULE, d)]
    if root:
        with open(os.path.join(cp, "zz_verif_main.go"), "w") as f:
            f.write(ROOTGO % (router_expr(cp), "harness.RootReset = ZZReset" if main else ""))
        cmd += ["."]
    else:
        cmd += ["./zzverif/cmd"]
    run(cmd, cp, e)
    return out


def mc_env(race):
    e = env()
    e["GOMAXPROCS"] = "1"
    e["GOGC"] = "400"
    if race:
        e["GORACE"] = "atexit_sleep_ms=0 halt_on_error=0 exitcode=0"
    return e


def findings(prop):
    """Known findings of a property: {key: what fails}."""
    known = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            w = l.strip().split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                known[w[2][4:]] = w[3]
    return known


def explore(mc, prop, tier, budget, work, known, race):
    n = max(2, min(8, os.cpu_count() or 8))
    ps = []
    for i in range(n):
        o = os.path.join(work, "out.%d.json" % i)
        err = open(os.path.join(work, "err.%d" % i), "wb")
        ps.append((o, subprocess.Popen([mc, "-prop", prop, "-tier", tier, "-shard", str(i), "-shards", str(n), "-budget", str(budget),
                                        "-known", ",".join(known), "-out", o, "-progress", o + ".progress"], cwd=work, env=mc_env(race), stdout=err, stderr=err, start_new_session=True)))
    end = time.time() + budget + 150
    reps, bad = [], []
    try:
        for i, (o, p) in enumerate(ps):
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                bad.append("shard %d did not end" % i)
                continue
            if rc != 0 or not os.path.exists(o):
                text = open(os.path.join(work, "err.%d" % i), errors="replace").read()
                v = None if rc < 0 else crashed(mc, prop, tier, o + ".progress", text, work, race)
                if v:
                    reps.append(dict(scenarios=[dict(name=v["scenario"], skipped=True)], violations=[v]))
                else:
                    bad.append("shard %d ended with %d: %s" % (i, rc, text[-3000:]))
                continue
            r = json.load(open(o))
            for v in r["violations"]:
                if v.get("status") == "data-race":
                    text = open(os.path.join(work, "err.%d" % i), errors="replace").read()
                    v["report"] = text[max(0, text.rfind("WARNING: DATA RACE")):][:20000].splitlines()
            reps.append(r)
    finally:
        for _, p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    if bad and not any(r["violations"] for r in reps):
        raise CheckError("; ".join(bad))
    return reps


def crashed(mc, prop, tier, progress, text, work, race):
    """An execution that brings the whole process down (a fatal error of the Go runtime,
    an exit) is a violation if it does so every time."""
    try:
        w = open(progress).readline().rstrip("\n")
    except OSError:
        return None
    name, devs = w, []
    while name and name.rsplit(" ", 1)[-1].count(",") == 2:
        name, _, d = name.rpartition(" ")
        a = [int(x) for x in d.split(",")]
        devs.insert(0, dict(pos=a[0], alt=a[1], n=a[2]))
    if not name:
        return None
    v = dict(property=prop, tier=tier, scenario=name, race_build=race, key="crash", status="crash", deviations=devs,
             msg="the process ends: " + (text[:1500] or "without a word"))
    f = os.path.join(work, "crash.json")
    json.dump(v, open(f, "w"))
    for _ in range(3):
        try:
            p = subprocess.run([mc, "-replay", f], cwd=work, env=mc_env(race), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode <= 0 or b"status=" in p.stdout:
            return None
    return v


def aggregate(reps):
    agg, order = {}, []
    for r in reps:
        for s in r["scenarios"]:
            n = s["name"]
            if n not in agg:
                order.append(n)
                agg[n] = dict(name=n, what=s.get("what", ""), bound=s.get("bound", 0), completed_bound=10**6, executions=0, states=0, transitions=0,
                              by={}, complete=True, outcomes=set(), diverged=0, replayed=0, notes={}, wall=0.0, samples=[])
            a = agg[n]
            if s.get("skipped"):
                a["complete"] = False
                a["completed_bound"] = min(a["completed_bound"], -1)
                continue
            a["what"] = a["what"] or s.get("what", "")
            a["bound"] = max(a["bound"], s["bound"])
            a["completed_bound"] = min(a["completed_bound"], s["completed_bound"])
            for k in ("executions", "states", "transitions", "diverged"):
                a[k] += s[k]
            a["replayed"] += s["replayed_identically"]
            a["complete"] = a["complete"] and s["complete"]
            a["outcomes"].update(s.get("outcomes") or [])
            a["wall"] = max(a["wall"], s["wall_s"])
            a["samples"] += s.get("samples") or []
            for k, v in s["executions_by_deviations"].items():
                a["by"][k] = a["by"].get(k, 0) + v
            for k, v in (s.get("notes") or {}).items():
                a["notes"][k] = a["notes"].get(k, 0) + v
    return [agg[n] for n in order]


ASSUME = [
    "sequentially consistent interleaving of the goroutines at synchronisation, channel, timer and transport operations; the data-race check (C20) covers what lies between them",
    "virtual time: code between two such operations takes no time; timers fire when no goroutine can run, or earlier where the scenario says so",
    "the simulated unit answers as the protocol description in DESIGN.md says, except for the faults the scenario injects",
]


def evidence(prop, tier, cov, wall, nviol, assumptions=None, level="model_checking"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions or ASSUME, wall_s=round(wall, 2), violations=nviol)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def report(prop, viols, known):
    """Print findings and violations; returns the exit code."""
    shown, rc = set(), 0
    for v in viols:
        k = v["key"]
        if k in known:
            if k not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
            shown.add(k)
            continue
        if rc == 0:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s.json" % (prop, "".join(c if c.isalnum() or c in "-_" else "_" for c in k)))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("scenario %s: %s" % (v.get("scenario"), v.get("msg", "")[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
    sys.stdout.flush()
    return rc


def check(prop, tier):
    t0 = time.time()
    known = findings(prop)
    race = prop in RACE
    work = tempfile.mkdtemp(prefix="comfo-mc-")
    try:
        if prop in SCRIPTS:
            mod = __import__(SCRIPTS[prop])
            cov, viols, assumptions = mod.check(prop, tier, work)
            evidence(prop, tier, cov, time.time() - t0, len([v for v in viols if v["key"] not in known]), assumptions)
            return report(prop, viols, known)
        mc = build(work, race=race, root=prop in ROOT)
        tb = time.time() - t0
        budget = float(os.environ.get("VERIF_BUDGET") or (150 if tier == "quick" else 620))
        reps = explore(mc, prop, tier, budget, work, known, race)
        ag = aggregate(reps)
        viols = [v for r in reps for v in r["violations"]]
        viols.sort(key=lambda v: (len(v["deviations"]), v["scenario"], v["key"]))
        cov = dict(
            states=sum(a["states"] for a in ag),
            transitions=sum(a["transitions"] for a in ag),
            traces_validated_against_impl=sum(a["replayed"] for a in ag),
            evaluations=sum(a["executions"] for a in ag),
            distinct_nontrivial=sum(len(a["outcomes"]) for a in ag),
            rule="every execution of the real (rewritten) code reachable from the scenario's inputs, environment choices and schedules with at most `bound` deviations from the default; "
                 "executions with the same observable outcome (results, errors, wire traffic) count once. states: decision points newly reached (each is a distinct prefix of an execution); "
                 "transitions: scheduling points executed; traces_validated_against_impl: executions that were repeated from their recorded decisions and came out identical",
            exhaustive=all(a["complete"] for a in ag),
            samples=[dict(scenario=a["name"], sample=x) for a in ag for x in a["samples"][:2]][:24],
            scenarios=[dict(name=a["name"], what=a["what"], deviation_bound=a["bound"], completed_bound=a["completed_bound"], exhaustive_within_bound=a["complete"],
                            executions=a["executions"], executions_by_deviations=a["by"], distinct_outcomes=len(a["outcomes"]), decision_points=a["states"],
                            scheduling_points=a["transitions"], repeated_identically=a["replayed"], diverged=a["diverged"], counted=a["notes"], wall_s=round(a["wall"], 2)) for a in ag],
            build_s=round(tb, 2),
            processes=len(reps),
        )
        evidence(prop, tier, cov, time.time() - t0, len([v for v in viols if v["key"] not in known]))
        for a in ag:
            print("%s %s: %d executions, %d outcomes, bound %d/%d%s, %.1fs" % (prop, a["name"], a["executions"], len(a["outcomes"]), a["completed_bound"], a["bound"],
                                                                            "" if a["complete"] else " (incomplete)", a["wall"]))
        return report(prop, viols, known)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    prop = v["property"]
    work = tempfile.mkdtemp(prefix="comfo-mc-")
    try:
        if prop in SCRIPTS:
            return __import__(SCRIPTS[prop]).replay(v, work)
        race = bool(v.get("race_build"))
        mc = build(work, race=race, root=prop in ROOT)
        return subprocess.run([mc, "-replay", os.path.abspath(path)], cwd=work, env=mc_env(race)).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest():
    """The rewriter, the controlled runtime and the explorer on programs whose outcomes are known."""
    work = tempfile.mkdtemp(prefix="comfo-mc-")
    try:
        mc = build1(work, False, False, False, litmus=True)
        native = json.loads(run([os.path.join(work, "native"), "15"], work))
        reps = explore(mc, "LITMUS", "quick", 400, work, {}, False)
        bad = 0
        for a in aggregate(reps):
            want, got = set(json.loads("[" + a["what"][1:-1].replace('" "', '", "') + "]")), set(a["notes"])
            nat = set(native.get(a["name"], {}))
            ok = got == want and nat <= want and a["complete"]
            bad += not ok
            print("%-4s %-24s %7d executions, bound %d/%d, %d outcomes%s%s" % (
                "ok" if ok else "BAD", a["name"], a["executions"], a["completed_bound"], a["bound"], len(got),
                ", %d of them in %d native runs" % (len(nat), sum(native[a["name"]].values())) if nat else "",
                "" if ok else "; stated %s, explored %s, native %s" % (sorted(want), sorted(got), sorted(nat))))
        print("%d programs, %d bad" % (len(aggregate(reps)), bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    """Warm the build cache; a check does not depend on it."""
    for kw in (dict(), dict(race=True), dict(root=True)):
        work = tempfile.mkdtemp(prefix="comfo-mc-")
        try:
            build(work, **kw)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return 0


def main(args):
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        if args[:1] == ["setup"]:
            return setup()
        if args[:1] == ["selftest"]:
            return selftest()
        if args[:1] == ["replay"] and len(args) == 2:
            return replay(args[1])
        if not args:
            print("usage: check <property> [quick|thorough] | replay <file> | setup", file=sys.stderr)
            return 2
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(args[0], tier if tier in ("quick", "thorough") else "quick")
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("check failed: %s" % e, file=sys.stderr)
        return 2
