"""Discharge the obligations of one contract group (or all of a property) against /repo's current source; JSON on stdout."""
import sys, os, json, time, warnings, resource
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)


def run(fn, maxpaths, limit):
    from engine import core
    t = time.time()
    try:
        r = core.explore(fn, maxpaths, limit)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return {"status": "unsupported", "obligations": [], "unsupported": ["%s: %s (%s)" % (type(e).__name__, e, "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-3:]))],
                "paths": 0, "z3_calls": 0, "z3_s": 0, "s": round(time.time() - t, 3)}
    names = {}
    for o in r.obs:
        n = names.setdefault(o.name, {"name": o.name, "n": 0, "ok": 0, "backend": o.backend, "detail": ""})
        n["n"] += 1
        n["ok"] += 1 if o.ok else 0
        if not o.ok and not n["detail"]: n["detail"] = str(o.detail)[:3000]
    return {"status": r.status(), "obligations": list(names.values()), "unsupported": sorted(set(r.unsupported))[:6], "paths": r.paths,
            "z3_calls": r.z3calls, "z3_s": round(r.z3time, 3), "assumptions": sorted(r.assumptions), "s": round(time.time() - t, 3)}


def main():
    import importlib
    prop, idx, limit = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    m = importlib.import_module("contracts." + prop)
    if idx < 0:
        out = [g.name for g in m.R.groups]
    else:
        g = m.R.groups[idx]
        out = {"group": g.name, "functions": g.functions, "bound": g.bound, "proof": None, "bounded": None}
        if g.proof is not None: out["proof"] = run(g.proof, g.maxpaths, limit)
        if g.bounded is not None and (out["proof"] is None or out["proof"]["status"] != "proved"):
            out["bounded"] = run(g.bounded, g.maxpaths, limit)
    sys.stdout = real
    print(json.dumps(out))


main()
