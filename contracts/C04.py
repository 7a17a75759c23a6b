"""C04: transfer operators act as the mixed transfer matrix of the unit cell."""
from .base import *
from .callee import *
R = Registry()


def E(d, U, L, x):
    """x[upper, lower] through one site, as a matrix"""
    if d > 0: return spec([x, U, A.conj(L)], ["ac", "abs", "cds"], "bd")
    return spec([x, U, A.conj(L)], ["bd", "abs", "cds"], "ac")


def flat(x): return A.reshape(x, (x.shape[0] * x.shape[1],))


def single_mps(t):
    M = MPSM()
    m = M.MPS.__new__(M.MPS)
    m._tensors, m._N, m._D, m._position, m._Z, m._obc, m._dtype = VList([t]), 1, sint("Dmax"), 0, 1.0, False, A.CPLX
    m._mat = Arr(T.eye(t.shape[0], None, True))
    m._connector = Arr(T.eye(t.shape[0], None, True))
    return m


def direction(): return (1, -1, 3, -2)[C().choose(4)]


@R.group("transfer-operator", ["mpsfunctions.TransferOperator", "mpsfunctions.MixedTransferOperator", "mpsfunctions.GeneralizedMatrixVectorProduct"])
def _():
    mf = MF()
    mix("U", "L", "x", y="x", p="x", q="x", x2="x")
    a, b, ap, bp, s = [dim(x) for x in ("a", "b", "a'", "b'", "s")]
    U, L = sym("U", a, b, s), sym("L", ap, bp, s)
    d = direction()
    ou, ol = C().choose(2), C().choose(2)
    x = sym("x", a, ap) if d > 0 else sym("x", b, bp)
    y = sym("y", a, a) if d > 0 else sym("y", b, b)
    v, w = flat(x), flat(y)
    out = (b, bp) if d > 0 else (a, ap)
    Uo, Lo = single_mps(U) if ou else U, single_mps(L) if ol else L
    got = call("MixedTransferOperator", mf.MixedTransferOperator, d, Uo, Lo, v)
    ensure_shape("MixedTransferOperator.shape", got, (out[0] * out[1],))
    ensure_eq("MixedTransferOperator", A.reshape(got, out), E(d, U, L, x))
    if not ou and not ol:
        got = call("GeneralizedMatrixVectorProduct", mf.GeneralizedMatrixVectorProduct, d, L, U, v)
        ensure_eq("GeneralizedMatrixVectorProduct", A.reshape(got, out), E(d, U, L, x))
        # lemma: adjointness under the bilinear pairing of the boundary vectors
        p, q = sym("p", a, ap), sym("q", b, bp)
        l = spec([mf.MixedTransferOperator(1, U, L, flat(p)), flat(q)], ["x", "x"], "")
        r = spec([flat(p), mf.MixedTransferOperator(-1, U, L, flat(q))], ["x", "x"], "")
        ensure_eq("pairing", l, r)
        # lemma: linearity
        x2, al = sym("x2", *x.shape), cscalar("al")
        ensure_eq("linear", mf.MixedTransferOperator(d, U, L, v * al + flat(x2)), mf.MixedTransferOperator(d, U, L, v) * al + mf.MixedTransferOperator(d, U, L, flat(x2)))
    if not ol:
        got = call("TransferOperator", mf.TransferOperator, d, Uo, w)
        o = (b, b) if d > 0 else (a, a)
        ensure_shape("TransferOperator.shape", got, (o[0] * o[1],))
        ensure_eq("TransferOperator", A.reshape(got, o), E(d, U, U, y))
    ensure_frame("transfer-operator.frame", U, L, x, y, v, w)


@R.group("transfer-operator.refusals", ["mpsfunctions.TransferOperator", "mpsfunctions.MixedTransferOperator"])
def _():
    mf = MF()
    a, s = dim("a"), dim("s")
    t, t2 = sym("t", a, a, s), sym("t2", a, a, s)
    m = single_mps(t)
    m._tensors, m._N = VList([t, t2]), 2
    one = single_mps(t)
    v = flat(sym("x", a, a))
    w = C().choose(5)
    f = [lambda: mf.TransferOperator(1, m, v), lambda: mf.MixedTransferOperator(1, m, t, v), lambda: mf.MixedTransferOperator(-1, t, m, v),
         lambda: mf.MixedTransferOperator(1, m, one, v), lambda: mf.MixedTransferOperator(1, one, m, v)][w]
    ensure_raises("transfer-operator.refusal", f, (ValueError,))


# ---- unit cells of any length -----------------------------------------------------------------------------------------
def cell_family(name, N, bond, phys="d"):
    D0 = dim(bond + "0")

    def b(k):
        k = SInt.mk(pint(k))
        if k == 0 or k == N: return D0
        return bonddim(bond, k)

    def fn(p): return sym("%s[%s]" % (name, p), b(SInt.mk(p)), b(SInt.mk(p) + 1), bonddim(phys, SInt.mk(p)))
    f = VList.family(fn, N)
    return f, b


class CellVec(EnvInv):
    """the running vector is the flattened recursively defined boundary matrix at the cut"""
    def __init__(s, name, env, unfold, d):
        EnvInv.__init__(s, name, lambda k: flat(env(k)), unfold, d)


def cell_env(name, b1, b2, d, N):
    def env(k): return sym("%s[%s]" % (name, pint(k)), b1(k), b2(k))
    return env


def define(env, U, L, d):
    def unfold(k):
        if d > 0: T.add_rule("def E", E(d, U[k], L[k], env(k)).v, env(k + 1).v)
        else: T.add_rule("def E", E(d, U[k], L[k], env(k + 1)).v, env(k).v)
    return unfold


def tops():
    """callee contracts of the single-site operators (group transfer-operator)"""
    def mto(direction, mpsA, mpsB, vector):
        if not (isinstance(mpsA, Arr) and isinstance(mpsB, Arr)): raise Unsupported("operands")
        if not (direction > 0 or direction < 0): return None
        i = 0 if direction > 0 else 1
        x = A.reshape(vector, (mpsA.shape[i], mpsB.shape[i]))
        return flat(E(1 if direction > 0 else -1, mpsA, mpsB, x))
    return {"MixedTransferOperator": mto, "TransferOperator": lambda direction, mps, vector: mto(direction, mps, mps, vector)}


def as_mps(f, N, b):
    M = MPSM()
    m = M.MPS.__new__(M.MPS)
    m._tensors, m._N, m._D, m._position, m._Z, m._obc, m._dtype = f, N, sint("Dmax"), 0, 1.0, False, A.CPLX
    m._mat = Arr(T.eye(b(0), None, True))
    m._connector = Arr(T.eye(b(0), None, True))
    return m


def cells():
    """upper and lower unit cells; length N symbolic with the one-site cell split off"""
    N = sint("N")
    assume(N >= 1)
    if C().choose(2):
        assume(N == 1)
        N = 1
    else: assume(N >= 2)
    U, b1 = cell_family("U", N, "a")
    L, b2 = cell_family("L", N, "b")
    if N == 1:
        U, L = VList([U[0]]), VList([L[0]])
    return N, U, b1, L, b2


@R.group("unit-cell", ["mpsfunctions.UnitcellTransferOperator", "mpsfunctions.MixedUnitcellTransferOperator"])
def _():
    mf = MF()
    mix("U", "L", X="UL")
    N, U, b1, L, b2 = cells()
    d = 1 if C().choose(2) else -1
    mixed = C().choose(2)
    lo, hi = 0, N
    start, end = (0, N) if d > 0 else (N, 0)
    if mixed: env, unf, nm = cell_env("X", b1, b2, d, N), None, "MixedUnitcellTransferOperator"
    else: L, b2, env, nm = U, b1, cell_env("X", b1, b1, d, N), "UnitcellTransferOperator"
    unf = define(env, U, L, d)
    x = env(start)
    v = flat(x)
    if N == 1: unf(0)
    inv = CellVec(nm, env, unf, d)
    C().data["loop_handler"] = lambda rng, locs, lid: inv
    X = U if C().choose(2) else as_mps(U, N, b1)
    with patched(mf, **tops()):
        if mixed: got = call(nm, mf.MixedUnitcellTransferOperator, d, X, L, v)
        else: got = call(nm, mf.UnitcellTransferOperator, d, X, v)
    if got is None: return ensure(nm + ".returns", False)
    ensure_shape(nm + ".shape", got, (b1(end) * b2(end),))
    ensure_eq(nm + ".value", A.reshape(got, (b1(end), b2(end))), env(end))
    ensure_frame(nm + ".frame", v, x)


def bounded_cells(N):
    D = [dim("D%d" % k) for k in range(N)]
    D.append(D[0])
    return VList([sym("U%d" % k, D[k], D[k + 1], dim("d%d" % k)) for k in range(N)]), D


@R.fallback("unit-cell", "unit cells of up to 4 sites, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("U", "L", "x", y="x")
    N = 1 + C().choose(4)
    d = 1 if C().choose(2) else -1
    U, D = bounded_cells(N)
    P = [dim("P%d" % k) for k in range(N)]
    P.append(P[0])
    L = VList([sym("L%d" % k, P[k], P[k + 1], dim("d%d" % k)) for k in range(N)])
    x, y = sym("x", D[0], P[0]), sym("y", D[0], D[0])
    w, z = x, y
    for k in (range(N) if d > 0 else range(N - 1, -1, -1)): w, z = E(d, U[k], L[k], w), E(d, U[k], U[k], z)
    got = call("MixedUnitcellTransferOperator", mf.MixedUnitcellTransferOperator, d, U, L, flat(x))
    ensure_eq("MixedUnitcellTransferOperator.bounded", A.reshape(got, (D[0], P[0])), w)
    got = call("UnitcellTransferOperator", mf.UnitcellTransferOperator, d, U, flat(y))
    ensure_eq("UnitcellTransferOperator.bounded", A.reshape(got, (D[0], D[0])), z)


@R.group("unit-cell.refusal", ["mpsfunctions.MixedUnitcellTransferOperator"])
def _():
    mf = MF()
    U, D = bounded_cells(2)
    L, _ = bounded_cells(3)
    d = 1 if C().choose(2) else -1
    ensure_raises("unit-cell.length", lambda: mf.MixedUnitcellTransferOperator(d, U, L, flat(sym("x", D[0], D[0]))), (AssertionError, ValueError))


def ucto(env):
    """callee contract of UnitcellTransferOperator: env maps the boundary vector through the whole cell"""
    def f(direction, mps, vector):
        if direction > 0: return env(1, vector)
        return env(-1, vector)
    return f


@R.group("pseudo", ["mpsfunctions.pseudoTransferOperator", "mpsfunctions.OneMinusPseudoTransferOperator"])
def _():
    mf = MF()
    mix("A", "L", "x", r="x", l="x")
    c = C()
    d = 1 if c.choose(2) else -1
    w = c.choose(3)
    D, Dl, s = dim("D"), dim("Dl"), dim("s")
    U = sym("A", D, D, s)
    with patched(mf, **tops()):
        if w == 0:
            x, r, l = sym("x", D, D), sym("r", D, D), sym("l", D, D)
            pr = spec([x, r, l], ["ab", "ab", "cd"], "cd") if d > 0 else spec([x, l, r], ["ab", "ab", "cd"], "cd")
            got = call("pseudoTransferOperator", mf.pseudoTransferOperator, U, r, l, d, flat(x))
            ensure_eq("pseudoTransferOperator", A.reshape(got, (D, D)), E(d, U, U, x) - pr)
            ensure_frame("pseudoTransferOperator.frame", U, x, r, l)
            return
        L = sym("L", Dl, Dl, s)
        x, r, l = sym("x", D, Dl), sym("r", D, Dl), sym("l", D, Dl)
        if w == 1:
            k = 0.0
            pr = spec([x, r, l], ["ab", "ab", "cd"], "cd") if d > 0 else spec([x, l, r], ["ab", "ab", "cd"], "cd")
            want = x - E(d, U, L, x) + pr
        else:
            k = rscalar("k")
            ak = A.np_abs(k)
            assume(A.compare(ak, 1e-4, ">="))
            want = x - E(d, U, L, x) * A.np_exp(k * 1j)
        got = call("OneMinusPseudoTransferOperator", mf.OneMinusPseudoTransferOperator, U, L, r, l, d, k, flat(x))
        ensure_eq("OneMinusPseudoTransferOperator.%s" % ("zero-momentum" if w == 1 else "momentum"), A.reshape(got, (D, Dl)), want)
        ensure_frame("OneMinusPseudoTransferOperator.frame", U, L, x, r, l)


@R.group("pseudo-unit-cell", ["mpsfunctions.pseudoUnitcellTransferOperator", "mpsfunctions.OneMinusPseudoUnitcellTransferOperator"])
def _():
    mf = MF()
    mix("x", "ld", "rd", "U", y="xU")
    N, U, b1, _, _ = cells()
    d = 1 if C().choose(2) else -1
    D = b1(0)
    x, y = sym("x", D, D), sym("y", D, D)          # y: the vector after the whole unit cell (contract of UnitcellTransferOperator)
    def lr(nm):
        def fn(p):
            k = SInt.mk(p)
            q = "N" if bool(k == N) else "0" if bool(k == 0) else p
            return sym("%s[%s]" % (nm, q), b1(k), b1(k))
        f = VList.family(fn, N + 1)
        return f if N != 1 else VList([f[0], f[1]])
    ld, rd = lr("ld"), lr("rd")
    def cell(direction, mps, vector):
        if mps is not U: raise Unsupported("another unit cell")
        ok = (direction > 0) == (d > 0)
        C().ob("unit-cell.call-direction", ok, "engine")
        ensure_eq("unit-cell.call-vector", A.reshape(vector, (D, D)), x)
        return flat(y)
    l0, rN, lN, r0 = ld[0], rd[N], ld[N], rd[0]
    pr = spec([x, rN, lN], ["ab", "ab", "cd"], "cd") if d > 0 else spec([x, l0, r0], ["ab", "ab", "cd"], "cd")
    with patched(mf, UnitcellTransferOperator=cell):
        got = call("pseudo", mf.pseudoUnitcellTransferOperator, d, U, ld, rd, flat(x))
        ensure_eq("pseudoUnitcellTransferOperator", A.reshape(got, (D, D)), y - pr)
        got = call("OneMinusPseudo", mf.OneMinusPseudoUnitcellTransferOperator, d, U, ld, rd, flat(x))
        ensure_eq("OneMinusPseudoUnitcellTransferOperator", A.reshape(got, (D, D)), x - y + pr)
    ensure_frame("pseudo-unit-cell.frame", x, l0, rN, lN, r0)


@R.fallback("pseudo-unit-cell", "unit cells of up to 3 sites")
def _():
    mf = MF()
    mix("x", "ld", "rd", "U")
    N = 1 + C().choose(3)
    d = 1 if C().choose(2) else -1
    U, D = bounded_cells(N)
    x = sym("x", D[0], D[0])
    y = x
    for k in (range(N) if d > 0 else range(N - 1, -1, -1)): y = E(d, U[k], U[k], y)
    ld, rd = [VList([sym("%s%d" % (n, k), D[k], D[k]) for k in range(N + 1)]) for n in ("ld", "rd")]
    pr = spec([x, rd[N], ld[N]], ["ab", "ab", "cd"], "cd") if d > 0 else spec([x, ld[0], rd[0]], ["ab", "ab", "cd"], "cd")
    got = call("pseudo", mf.pseudoUnitcellTransferOperator, d, U, ld, rd, flat(x))
    ensure_eq("pseudoUnitcellTransferOperator.bounded", A.reshape(got, (D[0], D[0])), y - pr)
    got = call("OneMinusPseudo", mf.OneMinusPseudoUnitcellTransferOperator, d, U, ld, rd, flat(x))
    ensure_eq("OneMinusPseudoUnitcellTransferOperator.bounded", A.reshape(got, (D[0], D[0])), x - y + pr)


class DensInv(EnvInv):
    """running density plus the list of densities: entry k+1 (entry k, leftwards) is written in iteration k"""
    def __init__(s, name, env, unfold, d, N):
        EnvInv.__init__(s, name, lambda k: A.reshape(env(k), tuple(env(k).shape) + (1,)), unfold, d)
        s.mat, s.N, s.lst = env, N, None

    def lists(s): return [s.lst] if s.lst is not None else []

    def slot(s, k): return k + 1 if s.d > 0 else k

    def check(s, i, locs, phase):
        EnvInv.check(s, i, locs, phase)
        if phase == "init":
            c = [x for x in locs.values() if isinstance(x, VList) and x.sym is not None and core.deq(pint(x.symlen()), pint(s.N + 1)) and not any(isinstance(v, Arr) for v in x.sym["cache"].values())]
            c = [x for x in c if x.sym["over"] and x is not s.skiplist]
            if len(c) != 1: raise Unsupported("the list of densities was not found")
            s.lst = c[0]
            s.i0 = i
            ensure_eq(s.name + ".first", s.lst[s.cut(i)], s.mat(s.cut(i)))
            return
        over = s.lst.sym["over"]
        ok = len(over) == 1 and not isinstance(over[0][0], tuple) and core.deq(over[0][0], pint(s.slot(s.index)))
        C().ob(s.name + ".list-frame", ok, "engine", "writes at %s" % [str(o[0]) for o in over])
        if ok: ensure_eq(s.name + ".list-element", over[0][1], s.mat(s.slot(s.index)))

    skiplist = None

    def havoc(s, i, locs):
        r = EnvInv.havoc(s, i, locs)
        s.index = i
        def fn(p):
            q = SInt.mk(p)
            done = q <= i if s.d > 0 else q > i
            return s.mat(q) if done else None
        s.lst.sym = {"fn": fn, "len": s.N + 1, "over": [], "cache": {}}
        return r


@R.group("computeDensity", ["mpsfunctions.computeDensity"])
def _():
    mf = MF()
    mix("U", X="U")
    c = C()
    N = sint("N")
    assume(N >= 1)
    d = 1 if c.choose(2) else -1
    if c.choose(2):
        assume(N == 1); N = 1
    else: assume(N >= 2)
    U, b1 = site_cell(N)
    X = as_mps(U, N, b1) if c.choose(2) else U
    env = lambda k: sym("X[%s]" % pint(k), b1(k), b1(k))
    unf = define(env, U, U, d)
    if N == 1: unf(0)
    inv = DensInv("computeDensity", env, unf, d, N)
    seen = []
    def handler(rng, locs, lid):
        # the first loop of the function only fills the list with placeholders
        if not any(isinstance(x, Arr) and x.ndim == 3 and v not in ("mps",) for v, x in locs.items()): return None
        return inv
    c.data["loop_handler"] = handler
    x = env(0 if d > 0 else N)
    with patched(mf, **layers()): got = call("computeDensity", mf.computeDensity, x, X, d)
    if got is None: return ensure("computeDensity.returns", False)
    ensure("computeDensity.length", vl(got) == N + 1)
    if N == 1: js = (0, 1)
    else:
        j = sint("j")
        assume(j >= 0); assume(j <= N)
        js = (0, N, j)
    for k in js: ensure_eq("computeDensity.entry", got[k], env(k))
    ensure_frame("computeDensity.frame", x)


def site_cell(N):
    """chain with unrelated end bonds"""
    def b(k): return bonddim("a", SInt.mk(pint(k)))
    f = VList.family(lambda p: sym("U[%s]" % p, b(p), b(SInt.mk(p) + 1), bonddim("d", SInt.mk(p))), N)
    return (f if isinstance(N, SInt) else VList([f[k] for k in range(N)])), b


@R.fallback("computeDensity", "up to 4 sites")
def _():
    mf = MF()
    mix("U", "x")
    N = 1 + C().choose(4)
    d = 1 if C().choose(2) else -1
    D = [dim("D%d" % k) for k in range(N + 1)]
    U = VList([sym("U%d" % k, D[k], D[k + 1], dim("d%d" % k)) for k in range(N)])
    x = sym("x", D[0], D[0]) if d > 0 else sym("x", D[N], D[N])
    want = [x]
    for k in (range(N) if d > 0 else range(N - 1, -1, -1)): want.append(E(d, U[k], U[k], want[-1]))
    if d < 0: want = want[::-1]
    got = call("computeDensity", mf.computeDensity, x, U, d)
    ensure("computeDensity.bounded-length", len(got) == N + 1)
    for k in range(N + 1): ensure_eq("computeDensity.bounded-entry", got[k], want[k])
