"""Mutation testing of the checks (development aid, not part of any check).
mutate.py PROP FILE FUNC[,FUNC..] [--rt SECS] [--max N] : mutate the functions in a scratch copy, report which tier notices."""
import ast, copy, sys, os, subprocess, json, shutil, tempfile, argparse, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sites(fn):
    """list of (description, mutator on a fresh copy) for the function node"""
    out = []
    nodes = list(ast.walk(fn))
    def add(k, desc, f): out.append((k, desc, f))
    for k, n in enumerate(nodes):
        ln = getattr(n, "lineno", "?")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(k, "%s: %d -> %d" % (ln, n.value, n.value + 1), lambda m: setattr(m, "value", m.value + 1))
            add(k, "%s: %d -> %d" % (ln, n.value, n.value - 1), lambda m: setattr(m, "value", m.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is float:
            add(k, "%s: %g -> %g" % (ln, n.value, n.value * 2 + 1), lambda m: setattr(m, "value", m.value * 2 + 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(k, "%s: flip %s" % (ln, n.value), lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            t = type(n.ops[0])
            if t in sw: add(k, "%s: %s -> %s" % (ln, t.__name__, sw[t].__name__), lambda m, q=sw[t]: setattr(m, "ops", [q()]))
        if isinstance(n, ast.BinOp) or isinstance(n, ast.AugAssign):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            t = type(n.op)
            if t in sw: add(k, "%s: %s -> %s" % (ln, t.__name__, sw[t].__name__), lambda m, q=sw[t]: setattr(m, "op", q()))
        if isinstance(n, ast.BoolOp):
            add(k, "%s: and/or" % ln, lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(k, "%s: drop unary %s" % (ln, type(n.op).__name__), ("repl", lambda m: m.operand))
        if isinstance(n, ast.Call) and n.args:
            f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if f in ("conj", "conjugate", "herm", "transpose", "real", "copy", "sqrt", "abs"):
                add(k, "%s: drop %s" % (ln, f), ("repl", lambda m: m.args[0]))
            if f == "conj": pass
        if isinstance(n, ast.Call) and not n.args and isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "copy", "__copy__"):
            add(k, "%s: drop .%s()" % (ln, n.func.attr), ("repl", lambda m: m.func.value))
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(getattr(n, "ctx", None), ast.Load):
            add(k, "%s: swap first two elements" % ln, lambda m: m.elts.__setitem__(slice(0, 2), [m.elts[1], m.elts[0]]))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or "warn" in ast.dump(st) or "print" in ast.dump(st) or "stdout" in ast.dump(st))):
                        add(k, "%s: delete statement %s" % (st.lineno, ast.unparse(st)[:60]), lambda m, f=field, i=i: getattr(m, f).__setitem__(i, ast.Pass()))
    return out


def skip_output(fn):
    """positions inside print/warn/raise/assert-message/docstring are not mutated"""
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            d = ast.unparse(n.func)
            if "print" in d or "warn" in d or "stdout" in d:
                bad |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Raise,)): bad |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Assert) and n.msg is not None: bad |= {id(x) for x in ast.walk(n.msg)}
    return bad


def apply(tree, qual, k, f):
    t = copy.deepcopy(tree)
    fn = find(t, qual)
    nodes = list(ast.walk(fn))
    n = nodes[k]
    if isinstance(f, tuple):
        new = f[1](n)
        for p in nodes:
            for field, v in ast.iter_fields(p):
                if v is n: setattr(p, field, new)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is n: v[i] = new
    else: f(n)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def find(t, qual):
    cur = t
    for part in qual.split("."):
        cur = [x for x in cur.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part][-1]
    return cur


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("file"); ap.add_argument("funcs")
    ap.add_argument("--rt", type=float, default=0)
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--noproof", action="store_true")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("--lines", default="", help="a-b: only sites on these lines")
    a = ap.parse_args()
    src = open(os.path.join("/repo", a.file)).read()
    tree = ast.parse(src)
    muts = []
    for q in a.funcs.split(","):
        fn = find(tree, q)
        nodes = list(ast.walk(fn))
        bad = skip_output(fn)
        dflt = {id(x) for d in fn.args.defaults for x in ast.walk(d)}
        for k, desc, f in sites(fn):
            if a.lines and not (desc.split(":")[0].isdigit() and int(a.lines.split("-")[0]) <= int(desc.split(":")[0]) <= int(a.lines.split("-")[1])): continue
            if id(nodes[k]) in bad or id(nodes[k]) in dflt: continue
            muts.append((q, k, desc, f))
    random.Random(a.seed).shuffle(muts)
    muts = muts[:a.max]

    def one(m):
        q, k, desc, f = m
        try: new = apply(tree, q, k, f)
        except Exception as e: return (q, desc, "invalid", "")
        d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        try:
            shutil.copytree("/repo/lib", os.path.join(d, "lib"))
            open(os.path.join(d, a.file), "w").write(new)
            env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", VERIF_CASE_LIMIT="20")
            pr = "-"
            if not a.noproof and os.path.exists(os.path.join(HERE, "contracts", a.prop + ".py")):
                try: r = subprocess.run(["python3-vt", "tools/mutprove.py", a.prop, ",".join(a.funcs.split(","))], cwd=HERE, env=env, capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired: r = None
                pr = r.stdout.strip().split("\n")[-1] if r and r.stdout.strip() else "timeout" if r is None else "crash " + r.stderr[-200:]
            rt = "-"
            if a.rt:
                try:
                    r = subprocess.run(["bash", "tools/rt.sh", a.prop, "--time", str(a.rt), "--seed", "5"], cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
                    rt = "FAIL" if "\nFAIL" in "\n" + r.stdout else "crash" if r.returncode else "quiet"
                except subprocess.TimeoutExpired: rt = "timeout"
            return (q, desc, pr, rt)
        finally: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(a.j) as ex: res = list(ex.map(one, muts))
    n = len(res)
    kp = sum(r[2].startswith("failed") for r in res); kr = sum(r[3] == "FAIL" for r in res)
    for r in sorted(res):
        if (not a.noproof and not r[2].startswith("failed")) or (a.rt and r[3] != "FAIL"): print("%-28s %-70s proof=%-40s rt=%s" % (r[0], r[1], r[2][:160], r[3]))
    print("%d mutants: proof tier notices %d, runtime tier %d" % (n, kp, kr))


main()
