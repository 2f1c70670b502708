import json, os, subprocess, shutil, sys, importlib
# Writes the planted bugs: mk.py a b c. Development tool; no check uses it.
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
W = "/tmp/plant-tree"

def make(sid, prop, needs, breaks, edits, demo, pkg="libcomfo", race=False, extra=None, raw=False):
    f = sys._getframe(1)
    if f.f_code.co_name == "prog":
        f = f.f_back
    m = f.f_globals["__name__"]
    if m not in sys.argv[1:]:
        return  # imported for its constants
    if not os.path.isdir(W):
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run("git fetch -q && git reset -q --hard origin/HEAD", shell=True, cwd=W, check=True)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, "edit matches", s.count(old), "times:", old[:60]); return
        open(p, "w").write(s.replace(old, new))
    if any(f.endswith(".go") for f, _, _ in edits):
        subprocess.run(["gofmt", "-l"] + [f for f, _, _ in edits if f.endswith(".go")], cwd=W)
    d = os.path.join(V, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")
    if raw:
        open(os.path.join(d, "demo.sh"), "w").write(demo)
    else:
        sh = open(os.path.join(HERE, "demo_sh.txt")).read().replace("TESTPKG", pkg + "_test").replace("PKGDIR", pkg).replace("RACEFLAG", "-race " if race else "")
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        shutil.copy(os.path.join(HERE, "unit_go.txt"), os.path.join(d, "unit.go.txt"))
        imp = demo.split("---\n", 1)
        open(os.path.join(d, "demo.go.txt"), "w").write("package %s_test\n\nimport (\n%s)\n\n%s" % (pkg, "".join('\t%s\n' % (i if i.endswith('"') else '"%s"' % i) for i in imp[0].split("\n") if i.strip()), imp[1].strip("\n") + "\n"))
        subprocess.run(["gofmt", "-l", "-e"], stdin=open(os.path.join(d, "demo.go.txt")), stdout=subprocess.DEVNULL)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in (extra or {}).items():
        open(os.path.join(d, n), "w").write(c)
    subprocess.run("git checkout -q -- .", shell=True, cwd=W)

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.modules["mk"] = sys.modules["__main__"]
    sys.path.insert(0, HERE)
    for m in sys.argv[1:]:
        importlib.import_module(m)
    shutil.rmtree("/tmp/plant-tree", ignore_errors=True)
