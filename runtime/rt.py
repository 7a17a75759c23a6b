"""Runtime contract checking: the postconditions of the contracts evaluated on concrete executions of the real code in
/repo.  Used to search for / replay a concrete failing input of an obligation; a bounded stand-in, never a proof."""
import os, sys, io, contextlib, warnings, time, json, zlib
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np
import functools

CASES = []


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def case(prop, name, covers, weight=1.0, known=None):
    def deco(fn):
        CASES.append((prop, name, fn, covers, weight, known))
        return fn
    return deco


class Rnd:
    def __init__(s, seed):
        s.rs = np.random.RandomState(seed % (2 ** 31))
        s.notes = []
        s.checks = 0

    # draws
    def note(s, /, **k): s.notes.append(k)
    def int(s, lo, hi): return int(s.rs.randint(lo, hi + 1))
    def pick(s, *xs): return xs[s.rs.randint(len(xs))]
    def coin(s, p=0.5): return bool(s.rs.rand() < p)
    def uni(s, a=-1.0, b=1.0): return float(a + (b - a) * s.rs.rand())
    def arr(s, shape, cx=None):
        if cx is None: cx = s.coin()
        a = s.rs.randn(*shape)
        if cx: a = a + 1j * s.rs.randn(*shape)
        return np.asarray(a)
    def scalar(s, cx=None):
        x = s.uni(0.3, 2.0) * s.pick(1, -1)
        if cx is None: cx = s.coin()
        return x * np.exp(1j * s.uni(0, 6.28)) if cx else x
    def herm(s, n, cx=None):
        a = s.arr((n, n), cx)
        return (a + a.conj().T) / 2
    def unitary(s, n, cx=None): return np.linalg.qr(s.arr((n, n), cx))[0]
    def isometry(s, m, n, cx=None): return np.linalg.qr(s.arr((m, n), cx))[0]


CUR = None


def check(cond, msg, **data):
    if CUR is not None: CUR.checks += 1
    if not cond:
        raise Fail(msg + (" " + ", ".join("%s=%s" % (k, short(v)) for k, v in data.items()) if data else ""))


def short(v):
    s = repr(v) if not isinstance(v, np.ndarray) else np.array2string(v, threshold=12, precision=6).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


def close(a, b, msg, tol=1e-9, rel=True):
    if CUR is not None: CUR.checks += 1
    if a is None: raise Fail(msg + ": no value returned")
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: raise Fail("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    if a.size == 0: return
    if a.dtype == object or b.dtype == object: raise Fail("%s: object dtype" % msg)
    if not np.all(np.isfinite(a)): raise Fail("%s: not finite" % msg)
    sc = max(1.0, float(np.max(np.abs(b)))) if rel else 1.0
    e = float(np.max(np.abs(a - b)))
    if not e <= tol * sc: raise Fail("%s: deviates by %.3e; got %s expected %s" % (msg, e, short(a), short(b)))


def call(msg, fn, *a, **k):
    """an error raised by the code under contract is a violation of its postcondition"""
    if CUR is not None: CUR.checks += 1
    try:
        with quiet(): return fn(*a, **k)
    except (Fail, Skip): raise
    except SystemExit as e: raise Fail("%s: exits the interpreter: %s" % (msg, e))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Fail("%s: raises %s: %s (at %s:%s)" % (msg, type(e).__name__, str(e)[:200], tb.filename, tb.lineno))


def refuses(msg, fn, *a, **k):
    if CUR is not None: CUR.checks += 1
    try:
        with quiet(): fn(*a, **k)
    except (Exception, SystemExit): return
    raise Fail("%s: accepted" % msg)


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout, sys.stderr = so, se


# ---- states ---------------------------------------------------------------------------------------
def mpsmod():
    with quiet():
        import lib.mpslib.mps as m
    return m


def mfmod():
    with quiet():
        import lib.mpslib.mpsfunctions as m
    return m


def hmod():
    with quiet():
        import lib.mpslib.Hamiltonians as m
    return m


def vec_list(ts):
    """dense amplitudes of a list of tensors (Dl,Dr,d) with open ends of dimension 1 (a trace if the ends are larger)"""
    v = ts[0].transpose(0, 2, 1)
    for t in ts[1:]:
        v = np.tensordot(v, t, ([v.ndim - 1], [0]))
        n = v.ndim
        v = v.transpose(list(range(n - 2)) + [n - 1, n - 2])
    n = v.ndim
    return np.trace(v, axis1=0, axis2=n - 1) if v.shape[0] == v.shape[-1] else v


def vec(mps):
    """the represented amplitudes, from the raw fields: Z * T0 .. T(p-1) mat Tp .. T(N-1)"""
    ts = [np.array(t) for t in mps._tensors]
    p = mps._position
    m = np.asarray(mps._mat)
    if p < len(ts): ts[p] = np.tensordot(m, ts[p], ([1], [0]))
    else: ts[p - 1] = np.tensordot(ts[p - 1], m, ([1], [0])).transpose(0, 2, 1)
    return mps._Z * vec_list(ts)


def snapshot(mps):
    return dict(t=[np.array(t) for t in mps._tensors], m=np.array(mps._mat), p=mps._position, Z=mps._Z, c=np.array(mps._connector),
                obc=mps._obc, D=mps._D, dt=mps._dtype)


def same_snapshot(mps, s, msg):
    check(mps._position == s["p"], msg + ": centre position changed")
    check(mps._Z == s["Z"], msg + ": norm factor changed")
    check(len(mps._tensors) == len(s["t"]), msg + ": length changed")
    for k, (a, b) in enumerate(zip(mps._tensors, s["t"])):
        check(a.shape == b.shape and np.array_equal(a, b), msg + ": tensor changed", site=k)
    check(np.shape(mps._mat) == s["m"].shape and np.array_equal(mps._mat, s["m"]), msg + ": centre matrix changed")


def left_err(t): return float(np.max(np.abs(np.tensordot(t, t.conj(), ([0, 2], [0, 2])) - np.eye(t.shape[1]))))
def right_err(t): return float(np.max(np.abs(np.tensordot(t, t.conj(), ([1, 2], [1, 2])) - np.eye(t.shape[0]))))


def rtensors(r, N, ds, Dmax, cx, obc=True, scale=True):
    D = [r.int(1, Dmax) for _ in range(N + 1)]
    if obc: D[0] = D[N] = 1
    else: D[N] = D[0]
    ts = [r.arr((D[k], D[k + 1], ds[k]), cx) for k in range(N)]
    if scale: ts = [t / max(1e-12, np.linalg.norm(t)) * r.uni(0.7, 1.5) for t in ts]
    return ts


def gauge(ts, p):
    """own reference gauging: left isometries before p, right isometries from p, centre matrix of norm one, norm"""
    ts = [np.array(t) for t in ts]
    N = len(ts)
    m = np.eye(1)
    for k in range(p):
        t = np.tensordot(m, ts[k], ([1], [0]))
        a, b, d = t.shape
        q, m = np.linalg.qr(t.transpose(0, 2, 1).reshape(a * d, b))
        ts[k] = q.reshape(a, d, q.shape[1]).transpose(0, 2, 1)
    w = np.eye(ts[-1].shape[1])
    for k in range(N - 1, p - 1, -1):
        t = np.tensordot(ts[k], w, ([1], [0])).transpose(0, 2, 1)
        a, b, d = t.shape
        q, rr = np.linalg.qr(t.reshape(a, b * d).conj().T)
        ts[k] = q.conj().T.reshape(q.shape[1], b, d)
        w = rr.conj().T
    mat = m.dot(w)
    z = np.linalg.norm(mat)
    if z < 1e-8: raise Skip()
    return ts, mat / z, z


def rstate(r, N=None, ds=None, Dmax=4, cx=None, pos=None, raw=False, Z=None, Nmax=5):
    """a random open-boundary MPS of the class under test with an arbitrary centre bond, in canonical form (own gauging,
    not the code's), generic centre matrix and norm factor.  raw: arbitrary (non-canonical) tensors"""
    M = mpsmod()
    if N is None: N = r.int(1, Nmax)
    if ds is None: ds = [r.int(1, 3) if r.coin(0.3) else 2 for _ in range(N)]
    if cx is None: cx = r.coin()
    ts = rtensors(r, N, ds, Dmax, cx)
    p = r.int(0, N) if pos is None else pos
    if raw:
        m = M.MPS(ts)
        m._position = p
        D = ts[p].shape[0] if p < N else ts[p - 1].shape[1]
        m._mat = r.arr((D, D), cx)
        m._mat = m._mat / np.linalg.norm(m._mat)
    else:
        g, mat, z = gauge(ts, p)
        m = M.MPS(g)
        m._position = p
        m._mat = mat
    m._Z = (r.scalar(cx and r.coin()) if Z is None else Z)
    m._D = r.int(Dmax, Dmax + 3)
    m._dtype = np.dtype(complex) if cx else np.dtype(float)
    m._obc = True
    r.note(N=N, d=list(ds), D=m.D, cx=bool(cx), pos=p, raw=raw)
    return m


def opmat(op4, v, site, n):
    pass


def apply_op(v, op, s):
    """op[in,out] applied to axis s of the amplitudes"""
    r = np.tensordot(v, op, ([s], [0]))
    return np.moveaxis(r, -1, s)


def mpo_dense(ws):
    """matrix H[in..., out...] of an MPO list with open ends of dimension 1 (W[ml,mr,in,out])"""
    N = len(ws)
    x = ws[0]                                   # ml mr in out
    acc = np.moveaxis(x, 1, -1)                 # ml in out mr
    for w in ws[1:]:
        acc = np.tensordot(acc, w, ([acc.ndim - 1], [0]))   # ... mr in out
        acc = np.moveaxis(acc, -3, -1)
    if acc.shape[0] == 1 and acc.shape[-1] == 1:
        acc = acc[0, ..., 0]
    else:
        acc = np.trace(acc, axis1=0, axis2=acc.ndim - 1)
    order = [2 * k for k in range(N)] + [2 * k + 1 for k in range(N)]
    return acc.transpose(order)


def rmpo(r, N, ds, Mmax=3, cx=None, ends=True):
    M = [r.int(1, Mmax) for _ in range(N + 1)]
    if ends: M[0] = M[N] = 1
    return [r.arr((M[k], M[k + 1], ds[k], ds[k]), cx) / 2 for k in range(N)]


# ---- running ---------------------------------------------------------------------------------------
LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", "150"))


def _alarm(*a): raise Fail("does not return within %g s" % LIMIT)


def run_one(fn, seed):
    global CUR
    import signal
    r = Rnd(seed)
    CUR = r
    np.random.seed(seed % (2 ** 31))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        fn(r)
        return "ok", None, r
    except Skip: return "skip", None, r
    except Fail as e: return "fail", str(e), r
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        if inrepo:
            return "fail", "raises %s: %s (at %s:%s)" % (type(e).__name__, str(e)[:200], inrepo[-1].filename, inrepo[-1].lineno), r
        if any(f.filename == __file__ and f.name in Rnd.__dict__ for f in tb):      # drawing the input failed: no input, no verdict
            return "skip", None, r
        return "fail", "the result cannot be evaluated against its contract: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-600:], r
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        CUR = None


def main():
    import argparse, importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float, default=20.0)
    ap.add_argument("--case")
    ap.add_argument("--caseseed", type=int)
    ap.add_argument("--min", type=int, default=3)
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--out")
    a = ap.parse_args()
    # the code under test may write checkpoint files: keep them in a scratch directory
    import tempfile, shutil, atexit
    if a.out: a.out = os.path.abspath(a.out)
    scratch = tempfile.mkdtemp(prefix="verif_rt_", dir=os.path.dirname(a.out) if a.out else None); os.chdir(scratch)
    atexit.register(shutil.rmtree, scratch, True)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    importlib.import_module("runtime." + a.prop)
    import runtime.rt as me
    cases = [c for c in me.CASES if c[0] == a.prop and (a.case is None or a.case == c[1])]
    if a.caseseed is not None:
        for c in cases:
            st, d, r = me.run_one(c[2], a.caseseed)
            print("%s seed=%d: %s %s" % (c[1], a.caseseed, st, d or ""))
            print("input:", json.dumps(r.notes, default=str))
            if st == "fail": sys.exit(1)
        return
    res = {"property": a.prop, "cases": [], "failures": [], "errors": []}
    tot = sum(c[4] for c in cases)
    t00 = time.time()
    for c in cases:
        budget = a.time * c[4] / tot
        t0 = time.time()
        k = n = sk = 0
        checks = 0
        seen = set()
        sample = None
        while k < a.max and (k < a.min or time.time() - t0 < budget) and time.time() - t00 < 3 * a.time + 60:
            seed = (zlib.crc32(("%s/%s" % (a.prop, c[1])).encode()) + 1000003 * a.seed + 7919 * k) % (2 ** 31)
            k += 1
            st, d, r = me.run_one(c[2], seed)
            checks += r.checks
            if st == "skip":
                sk += 1
                continue
            n += 1
            sig = json.dumps(r.notes, default=str, sort_keys=True)
            seen.add(zlib.crc32(sig.encode()))
            if sample is None: sample = {"case": c[1], "seed": seed, "input": r.notes[:2]}
            if st == "fail":
                res["failures"].append({"case": c[1], "seed": seed, "detail": d, "input": r.notes, "covers": c[3], "known": c[5]})
                break
            if st == "error":
                res["errors"].append({"case": c[1], "seed": seed, "detail": d})
                break
        res["cases"].append({"case": c[1], "covers": c[3], "runs": n, "skipped": sk, "distinct": len(seen), "checks": checks, "s": round(time.time() - t0, 2), "sample": sample})
    s = json.dumps(res, default=str)
    if a.out: open(a.out, "w").write(s)
    else:
        for c in res["cases"]: print(c["case"], c["runs"], "distinct", c["distinct"], "checks", c["checks"], "%ss" % c["s"], "skip", c["skipped"])
        for f in res["failures"]: print("FAIL", f["case"], f["seed"], f["detail"][:500], "\n    ", json.dumps(f["input"], default=str)[:300])
        for f in res["errors"]: print("ERROR", f["case"], f["seed"], f["detail"])


if __name__ == "__main__":
    sys.modules.setdefault("runtime", type(sys)("runtime"))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    del sys.modules["runtime"]
    import runtime.rt as _m
    _m.main()
