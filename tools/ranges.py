"""Mutation of loop bounds and strides of the functions under contract (development aid, not part of any check).
ranges.py PROP[,PROP] [-j N]: prints the mutants the proofs accept."""
import ast, copy, sys, os, subprocess, shutil, tempfile, argparse, importlib, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
FILES = ["lib/mpslib/mpsfunctions.py", "lib/mpslib/mps.py", "lib/mpslib/engines.py", "lib/mpslib/Hamiltonians.py", "lib/Lanczos/LanczosEngine.py", "lib/ncon/ncon.py", "lib/utils/utilities.py", "lib/utils/binaryoperations.py", "lib/mpslib/sexpmv.py"]
TREES = {f: ast.parse(open("/repo/" + f).read()) for f in FILES}


def find(t, qual):
    cur = t
    for part in qual.split("."):
        cur = [x for x in cur.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part]
        if not cur: return None
        cur = cur[-1]
    return cur if isinstance(cur, ast.FunctionDef) else None


def loops(fn): return [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range"]


def plus(e, k): return ast.BinOp(e, ast.Add() if k > 0 else ast.Sub(), ast.Constant(abs(k)))


def variants(call):
    a = call.args
    lo, hi, st = (ast.Constant(0), a[0], ast.Constant(1)) if len(a) == 1 else (a[0], a[1], ast.Constant(1)) if len(a) == 2 else a
    d = -1 if ast.unparse(st).startswith("-") else 1
    for nm, x in (("start later", (plus(lo, d), hi, st)), ("start earlier", (plus(lo, -d), hi, st)), ("stop earlier", (lo, plus(hi, -d), st)), ("stop later", (lo, plus(hi, d), st)),
                  ("stride 2", (lo, hi, ast.BinOp(ast.Constant(2), ast.Mult(), st)))):
        yield nm, [copy.deepcopy(y) for y in x]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props"); ap.add_argument("-j", type=int, default=6); ap.add_argument("--func")
    a = ap.parse_args()
    for prop in a.props.split(","):
        m = importlib.import_module("contracts." + prop)
        names = sorted({f.split(" ")[0] for g in m.R.groups for f in g.functions})
        jobs = []
        for nm in names:
            if a.func and a.func not in nm: continue
            q = nm.split(".", 1)[1] if nm.split(".")[0] in ("mpsfunctions", "utilities", "binaryoperations", "ncon", "sexpmv", "Hamiltonians", "mps", "engines", "LanczosEngine") and "." in nm else nm
            for f, t in TREES.items():
                for cand in (nm, q):
                    fn = find(t, cand)
                    if fn is None: continue
                    for k, L in enumerate(loops(fn)):
                        for desc, args in variants(L.iter):
                            t2 = copy.deepcopy(t)
                            loops(find(t2, cand))[k].iter.args = args
                            ast.fix_missing_locations(t2)
                            jobs.append((prop, f, cand, nm, L.lineno, desc, ast.unparse(t2)))
                    break

        def one(j):
            prop, f, cand, nm, ln, desc, new = j
            d = tempfile.mkdtemp(prefix="rng", dir="/tmp")
            try:
                shutil.copytree("/repo/lib", os.path.join(d, "lib"))
                open(os.path.join(d, f), "w").write(new)
                env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", VERIF_CASE_LIMIT="20")
                try: r = subprocess.run(["python3-vt", "tools/mutprove.py", prop, nm], cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired: return j, "timeout"
                return j, (r.stdout.strip().split("\n")[-1] if r.stdout.strip() else "crash " + r.stderr[-200:])
            finally: shutil.rmtree(d, ignore_errors=True)
        seen = 0
        with ThreadPoolExecutor(a.j) as ex:
            for j, res in ex.map(one, jobs):
                if not res.startswith("failed"): print("%s %-34s %5d %-14s %s" % (j[0], j[2], j[4], j[5], res[:150]), flush=True)
                else: seen += 1
        print("== %s: %d of %d noticed" % (prop, seen, len(jobs)), flush=True)


main()
