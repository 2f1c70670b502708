#!/usr/bin/env python3
"""py.py OUT.jsonl FILE...: mutants of the Python client (paths relative to /repo) and
whether C22 catches them. Development tool; no check uses it."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    said = set()  # what annotations say has no effect
    for n in nodes:
        for a in (getattr(n, "returns", None), getattr(n, "annotation", None)):
            if a is not None:
                said.update(map(id, ast.walk(a)))
    for i, n in enumerate(nodes):
        if id(n) in said:
            continue
        def mod(f):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            f(m)
            return ast.unparse(ast.fix_missing_locations(t))
        at = "%d:%d" % (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield at, "not", mod(lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    yield at, "%+d" % d, mod(lambda m: setattr(m, "value", m.value + d))
        if isinstance(n, ast.Compare):
            for o in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Eq):
                if not isinstance(n.ops[0], o):
                    yield at, o.__name__, mod(lambda m: m.ops.__setitem__(0, o()))
        if isinstance(n, ast.BoolOp):
            yield at, "and/or", mod(lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield at, "drop %d" % k, mod(lambda m: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, m.values[1 - k]))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            others = sorted({m.attr for m in nodes if isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Load) and ast.dump(m.value) == ast.dump(n.value)} - {n.attr})
            for o in [others[(k + (n.lineno * 31 + n.col_offset)) % len(others)] for k in range(min(1, len(others)))]:
                yield at, "." + o, mod(lambda m: setattr(m, "attr", o))
        if isinstance(n, ast.keyword) and n.arg:
            for o in ("Abs", "Rel", "Mode", "TargetSpeed", "speed", "profile", "percent"):
                if o != n.arg and {o, n.arg} in ({"Abs", "Rel"}, {"Mode", "TargetSpeed"}, {"profile", "percent"}):
                    yield at, n.arg + "=>" + o, mod(lambda m: setattr(m, "arg", o))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ("profile", "percent", "BootInfo", "Bypass", "Temps", "Fans", "FanProfiles", "Errors"):
            for o in ("profile", "percent") if n.id.startswith("p") else ("BootInfo", "Bypass", "Temps", "Fans", "FanProfiles", "Errors"):
                if o != n.id:
                    yield at, o, mod(lambda m: setattr(m, "id", o))
        for field in ("body", "orelse", "handlers"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.stmt):
                        yield "%d:%d" % (s.lineno, s.col_offset), "delete", mod(lambda m: getattr(m, field).__setitem__(k, ast.Pass()))


def judge(a):
    f, at, what, src = a
    t = tempfile.mkdtemp(prefix="pymut-")
    try:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        open(os.path.join(r, f), "w").write(src)
        p = subprocess.run([os.path.join(V, "check"), "C22", "quick"], env=dict(os.environ, COMFO_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return {"file": f, "at": at, "what": what, "rc": p.returncode, "out": "" if p.returncode < 2 else p.stdout[-500:]}
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    work, seen, done = [], set(), set()
    if os.path.exists(sys.argv[1]):
        done = {(m["file"], m["at"], m["what"]) for m in map(json.loads, open(sys.argv[1]))}
    for f in sys.argv[2:]:
        src = open(os.path.join("/repo", f)).read()
        seen.add(ast.unparse(ast.parse(src)))
        for at, what, s in mutants(src):
            if s not in seen and (f, at, what) not in done:
                seen.add(s)
                work.append((f, at, what, s))
    print(len(work), "mutants", flush=True)
    with ThreadPoolExecutor(5) as ex, open(sys.argv[1], "a") as o:
        for r in ex.map(judge, work):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["rc"] != 1:
                print(r["file"], r["at"], r["what"], "rc", r["rc"], r["out"], flush=True)
