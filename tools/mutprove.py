import sys, warnings, os, importlib
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)
from engine import core
out = sys.stdout
sys.stdout = open(os.devnull, "w")
try:
    m = importlib.import_module("contracts." + sys.argv[1])
    fs = [f.split(".")[-1] for f in sys.argv[2].split(",")] if len(sys.argv) > 2 else None
    st = []
    for g in m.R.groups:
        if fs and not any(x.split(".")[-1].split(" ")[0] in fs or "*" in x for x in g.functions): continue
        pr = bo = None
        if g.proof: pr = core.explore(g.proof, g.maxpaths, 60)
        if g.bounded and (pr is None or pr.status() != "proved"): bo = core.explore(g.bounded, g.maxpaths, 60)
        s = (pr.status() if pr else None, bo.status() if bo else None)
        st.append((g.name, s, (pr.unsupported[:1] if pr and pr.unsupported else []) + (bo.unsupported[:1] if bo and bo.unsupported else [])))
    bad = [x for x in st if "failed" in x[1] and x[1][1] in ("failed", None) or x[1][1] == "failed"]
    und = [x for x in st if x not in bad and x[1][0] != "proved" and x[1] != (None, "proved")]
    r = "failed %s" % bad[0][0] if bad else "undischarged %s" % und[:2] if und else "proved (%d groups)" % len(st)
except Exception as e:
    r = "error %s: %s" % (type(e).__name__, e)
sys.stdout = out
print(r)
