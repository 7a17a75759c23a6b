"""Behaviour-preserving edits of the functions under contract (development aid, not part of any check): the proofs have to stay
quiet.  refactor.py PROP[,PROP] [--only TRANSFORM] [--func F]"""
import ast, copy, sys, os, subprocess, shutil, tempfile, argparse, importlib, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
FILES = ["lib/mpslib/mpsfunctions.py", "lib/mpslib/mps.py", "lib/mpslib/engines.py", "lib/mpslib/Hamiltonians.py", "lib/Lanczos/LanczosEngine.py", "lib/ncon/ncon.py", "lib/utils/binaryoperations.py"]
TREES = {f: ast.parse(open("/repo/" + f).read()) for f in FILES}


def find(t, qual):
    cur = t
    for part in qual.split("."):
        cur = [x for x in cur.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part]
        if not cur: return None
        cur = cur[-1]
    return cur if isinstance(cur, ast.FunctionDef) else None


def owner(t, fn):
    for c in ast.walk(t):
        if isinstance(c, ast.ClassDef) and fn in c.body: return c
    return None


def params(fn): return [a.arg for a in fn.args.args + fn.args.kwonlyargs] + ([fn.args.vararg.arg] if fn.args.vararg else []) + ([fn.args.kwarg.arg] if fn.args.kwarg else [])


def stored(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
def loaded(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} | {x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield n, f, b


def t_rename(t, fn):
    pr = set(params(fn))
    names = {x for x in stored(fn)} - pr
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)): return False
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in names: x.id = x.id + "_v"
    return bool(names)


def t_tmp(t, fn):
    k = 0
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Subscript)) and isinstance(v.func, (ast.Name, ast.Attribute)) and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
                nm = "_arg%d" % k; k += 1
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], v.args[0]))
                v.args[0] = ast.Name(nm, ast.Load())
                i += 1
            i += 1
    return k > 0


def t_while(t, fn):
    done = False
    orig = copy.deepcopy(fn)
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
                a = s.iter.args
                lo, hi, st = (ast.Constant(0), a[0], ast.Constant(1)) if len(a) == 1 else (a[0], a[1], ast.Constant(1)) if len(a) == 2 else tuple(a)
                neg = isinstance(st, ast.UnaryOp)
                if not isinstance(st, ast.Constant) and not neg: i += 1; continue
                c = s.target.id
                reads = lambda r: sum(isinstance(x, ast.Name) and x.id == c for x in ast.walk(r))
                if reads(orig) != sum(reads(x) for x in ast.walk(orig) if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and x.target.id == c):
                    i += 1; continue      # the counter is read elsewhere
                w = ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Gt() if neg else ast.Lt()], [hi]), s.body + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), st)], [])
                b[i:i + 1] = [ast.Assign([ast.Name(c, ast.Store())], lo), w]
                i += 1
                done = True
            i += 1
    return done


def t_invert(t, fn):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test = ast.UnaryOp(ast.Not(), x.test); x.body, x.orelse = x.orelse, x.body
            done = True
    return done


def t_wrap(t, fn):
    """body moved to a helper function/method"""
    if fn.name.startswith("__") and fn.name in ("__init__",) or fn.decorator_list: return False
    cl = owner(t, fn)
    new = copy.deepcopy(fn); new.name = "_%s_impl" % fn.name.strip("_"); new.args.defaults = []
    if fn.args.kwarg or fn.args.vararg or fn.args.kwonlyargs: return False
    ps = params(fn)
    f = ast.Attribute(ast.Name(ps[0], ast.Load()), new.name, ast.Load()) if cl else ast.Name(new.name, ast.Load())
    if cl and ps[:1] != ["self"]: return False
    fn.body = [ast.Return(ast.Call(f, [ast.Name(p, ast.Load()) for p in (ps[1:] if cl else ps)], []))]
    tgt = cl.body if cl else t.body
    tgt.insert(tgt.index(fn), new)
    return True


SIMPLE = (ast.Assign, ast.AugAssign)
def t_extract(t, fn, skip=0):
    """runs of >= 2 simple assignments moved to a helper function"""
    cl = owner(t, fn)
    locs = stored(fn) | set(params(fn))
    k = 0
    helpers = []
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            j = i
            while j < len(b) and isinstance(b[j], SIMPLE) and j - i < 3: j += 1
            if j - i >= 2 and not any(isinstance(x, (ast.ListComp, ast.Lambda, ast.GeneratorExp)) for s in b[i:j] for x in ast.walk(s)):
                seg = b[i:j]
                outs = sorted(set().union(*[stored(s) for s in seg]))
                ins = sorted((set().union(*[loaded(s) for s in seg])) & locs)
                # only inputs assigned before: drop the ones first stored inside
                seen, need = set(), set()
                for s in seg:
                    need |= (loaded(s) & locs) - seen
                    seen |= stored(s)
                ins = sorted(need)
                if outs:
                    nm = "_step_%s_%d" % (fn.name.strip("_"), k); k += 1
                    ret = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())
                    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), list(seg) + [ast.Return(ret)], [], None)
                    helpers.append(h)
                    tg = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())
                    b[i:j] = [ast.Assign([tg], ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], []))]
            i += 1
    at = t.body.index(cl if cl else fn)
    for h in helpers: t.body.insert(at, h)
    return k > 0


def t_swap(t, fn):
    done = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and all(isinstance(q, ast.Name) for q in s.targets) for s in (x, y)):
                nx, ny = stored(x) | loaded(x), stored(y) | loaded(y)
                attr = any(isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == "self" for s in (x, y) for q in ast.walk(s))
                if not (stored(x) & ny or stored(y) & nx) and not (attr and any(isinstance(q, ast.Call) for s in (x, y) for q in ast.walk(s))):
                    b[i], b[i + 1] = y, x; done = True; i += 1
            i += 1
    return done


class Idiom(ast.NodeTransformer):
    def __init__(s): s.n = 0
    def visit_Call(s, c):
        s.generic_visit(c)
        f = c.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
            if f.attr in ("conj", "conjugate") and len(c.args) == 1: s.n += 1; f.attr = "conjugate" if f.attr == "conj" else "conj"
            elif f.attr == "transpose" and len(c.args) == 2: s.n += 1; return ast.Call(ast.Attribute(c.args[0], "transpose", ast.Load()), [c.args[1]], [])
            elif f.attr == "shape" and len(c.args) == 1: s.n += 1; return ast.Attribute(c.args[0], "shape", ast.Load())
            elif f.attr == "copy" and len(c.args) == 1: s.n += 1; return ast.Call(ast.Attribute(c.args[0], "copy", ast.Load()), [], [])
        elif isinstance(f, ast.Attribute) and f.attr == "dot" and len(c.args) == 1 and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "self", "mps")): s.n += 1; return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "dot", ast.Load()), [f.value, c.args[0]], [])
        return c


def t_idiom(t, fn):
    v = Idiom(); v.generic_visit(fn)
    return v.n > 0


def t_aug(t, fn):
    done = False
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)); done = True
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.BinOp) and ast.unparse(s.value.left) == ast.unparse(s.targets[0]) and isinstance(s.value.op, (ast.Div, ast.Mult)): pass
    return done


def t_ret(t, fn):
    """result bound to a name before it is returned"""
    done = False
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                b[i:i + 1] = [ast.Assign([ast.Name("_result", ast.Store())], s.value), ast.Return(ast.Name("_result", ast.Load()))]; done = True
                break
    return done


def t_elif(t, fn):
    """independent ifs on one name == constant whose bodies all return: chained with elif"""
    done = False
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 2, -1, -1):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                done = True
    return done


def t_noop(t, fn):
    fn.body.insert(1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0, ast.parse("_unused = None").body[0])
    return True


def t_inline(t, fn):
    """names stored once by a simple assignment and used once in the very next statement are inlined"""
    done = False
    cnt = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name): cnt.setdefault(x.id, []).append(type(x.ctx))
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, nx = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(nx, (ast.Assign, ast.Return)):
                nm = s.targets[0].id
                if sorted(c.__name__ for c in cnt[nm]) == ["Load", "Store"] and isinstance(s.value, (ast.Call, ast.BinOp)):
                    class R(ast.NodeTransformer):
                        hit = 0
                        def visit_Name(r, x):
                            if x.id == nm: r.hit += 1; return s.value
                            return x
                    calls = [x for x in ast.walk(nx.value) if isinstance(x, ast.Call)] if nx.value is not None else []
                    r = R()
                    m = copy.deepcopy(nx)
                    m.value = r.visit(m.value) if m.value is not None else None
                    if r.hit == 1 and len(calls) <= 1:
                        b[i:i + 2] = [m]; done = True
                        continue
            i += 1
    return done


TR = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props"); ap.add_argument("--only", default=""); ap.add_argument("--func", default="")
    ap.add_argument("-j", type=int, default=7); ap.add_argument("--keep", action="store_true"); ap.add_argument("--show", action="store_true"); ap.add_argument("--rt", type=float, default=0)
    a = ap.parse_args()
    so = sys.stdout; sys.stdout = open(os.devnull, "w")
    jobs = []
    for p in a.props.split(","):
        m = importlib.import_module("contracts." + p)
        for q in sorted({f.split(" ")[0] for g in m.R.groups for f in g.functions}):
            if a.func and a.func not in q: continue
            last = q.split(".", 1)[1] if q.split(".")[0] in ("mpsfunctions", "binaryoperations") else q
            if q.split(".")[0] == "mpsfunctions": fs = FILES[:1]
            elif q.split(".")[0] == "binaryoperations": fs = FILES[-1:]
            else: fs = FILES
            for file in fs:
                names = [last]
                if "." not in last and file.endswith("Hamiltonians.py"): names.append(last + ".__init__")
                for nm in names:
                    if find(TREES[file], nm) is not None:
                        for k in TR:
                            if not a.only or k in a.only.split(","): jobs.append((p, q, file, nm, k))
    sys.stdout = so

    def one(j):
        p, q, file, nm, k = j
        t = copy.deepcopy(TREES[file])
        try:
            if not TR[k](t, find(t, nm)): return None
            new = ast.unparse(ast.fix_missing_locations(t))
        except Exception as e: return j + ("invalid %r" % e,)
        d = tempfile.mkdtemp(prefix="ref", dir="/tmp")
        try:
            shutil.copytree("/repo/lib", os.path.join(d, "lib"))
            open(os.path.join(d, file), "w").write(new)
            if a.show: subprocess.run("python3 - <<'X'\nimport ast;print(ast.unparse(ast.parse(open('/repo/%s').read())))\nX" % file, shell=True, stdout=open(d + "/o", "w")); print(subprocess.run(["diff", d + "/o", os.path.join(d, file)], capture_output=True, text=True).stdout)
            env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", VERIF_CASE_LIMIT="20")
            try: r = subprocess.run(["python3-vt", "tools/mutprove.py", p, q], cwd=HERE, env=env, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: r = None
            pr = r.stdout.strip().split("\n")[-1] if r and r.stdout.strip() else "timeout" if r is None else "crash " + r.stderr[-200:]
            if a.rt:
                r = subprocess.run(["bash", "tools/rt.sh", p, "--time", str(a.rt), "--seed", "5"], cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
                pr += " rt=" + ("FAIL" if "\nFAIL" in "\n" + r.stdout else "crash" if r.returncode else "quiet")
            res = j + (pr,)
            if not pr.startswith("proved") or "FAIL" in pr: print("%-4s %-40s %-8s %s" % (p, q, k, pr[:300]), flush=True)
            return res
        finally:
            if not a.keep: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(a.j) as ex: res = [r for r in ex.map(one, jobs) if r]
    print("%d refactorings: %d proved, %d failed, %d other" % (len(res), sum(r[-1].startswith("proved") for r in res), sum(r[-1].startswith("failed") for r in res), sum(not r[-1].startswith(("proved", "failed")) for r in res)))


main()
