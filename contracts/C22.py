"""C22: environments of an infinite system hold the energy per cell exactly once.

Operators: lower triangular form with nearest-neighbour terms, W[-1,-1] = W[0,0] = 1, W[-1,0] = h, W[-1,1:-1] = a, W[1:-1,0] = b, other
entries zero.  Precondition of the quantifier: isometric injective cell, densities of unit trace reproduced by the cell."""
from .base import *
from .callee import *
from .C04 import E, flat, cell_family, as_mps
from .C18 import aside
R = Registry()


def addlayer(x, t, W, d): return spec_addlayer(x, t, W, t, d)


def cell(cx=True, wx=True, least=1, length=None):
    """unit cell of symbolic length with its operator; channels M[k] >= 2"""
    c = C()
    D0, M0 = dim("a0"), dim("m0")
    assume(M0 >= 2)
    if length is not None: N = length
    else:
        N = sint("N")
        assume(N >= least)
    if length is None and least == 1 and c.choose(2, "one site"):
        assume(N == 1)
        N = 1
    elif length is None and least == 1: assume(N >= 2)

    def b(k):
        k = SInt.mk(pint(k))
        return D0 if k == 0 or k == N else bonddim("a", k)

    def m(k):
        k = SInt.mk(pint(k))
        if k == 0 or k == N: return M0
        x = bonddim("m", k)
        assume(x >= 2)
        return x
    fn = lambda p: sym("T[%s]" % pint(p), b(p), b(SInt.mk(pint(p)) + 1), bonddim("d", SInt.mk(pint(p))), cx=cx)
    fw = lambda p: sym("W[%s]" % pint(p), m(p), m(SInt.mk(pint(p)) + 1), bonddim("d", SInt.mk(pint(p))), bonddim("d", SInt.mk(pint(p))), cx=wx)
    if not isinstance(N, SInt): ts, ws = VList([fn(k) for k in range(N)]), VList([fw(k) for k in range(N)])
    else: ts, ws = VList.family(fn, N), VList.family(fw, N)
    H = world().load("lib.mpslib.Hamiltonians")
    o = H.MPO.__new__(H.MPO)
    o._mpo, o._N, o._dtype = ws, N, A.CPLX if wx else A.FLOAT
    return N, b, m, ts, ws, o


def densities(N, b, nm, cx):
    def fn(p):
        k = SInt.mk(pint(p))
        q = "N" if bool(k == N) else "0" if bool(k == 0) else p
        return sym("%s[%s]" % (nm, q), b(k), b(k), cx=cx)
    f = VList.family(fn, N + 1)
    return f if isinstance(N, SInt) else VList([f[k] for k in range(N + 1)])


def environment_case(length=None):
    mf = MF()
    c = C()
    cx, wx = [(True, True), (True, False), (False, True), (False, False)][c.choose(4)]
    d = 1 if c.choose(2) else -1
    N, b, m, ts, ws, o = cell(cx, wx) if length is None else cell(cx, wx, length=length)
    ld, rd = densities(N, b, "ld", cx), densities(N, b, "rd", cx)
    D = b(0)
    s0 = N - 1 if d > 0 else 0
    t0, w0 = ts[s0], ws[s0]
    done, last = (0, -1) if d > 0 else (-1, 0)
    # terms that start (end) on the neighbouring site outside the cell: row -1 (column 0), without its local term
    one = A.np_eye(t0.shape[0] if d > 0 else t0.shape[1])
    if d > 0:
        start = A.np_zeros((1, m(N)) + tuple(w0.shape[2:]), dtype=A.CPLX)
        start[0, 1:, :, :] = w0[-1, 1:, :, :]
    else:
        start = A.np_zeros((m(0), 1) + tuple(w0.shape[2:]), dtype=A.CPLX)
        start[:-1, 0, :, :] = w0[:-1, 0, :, :]
    x1 = A.expand_dims(one, 2)
    first = addlayer(x1, t0, start, d)
    beg, end = (0, N) if d > 0 else (N, 0)

    def env(k):
        k = SInt.mk(pint(k))
        return sym("G[%s]" % pint(k), b(k), b(k), m(k), cx=cx or wx)

    def unfold(k):
        if d > 0: T.add_rule("def G", addlayer(env(k), ts[k], ws[k], d).v, env(k + 1).v)
        else: T.add_rule("def G", addlayer(env(k + 1), ts[k], ws[k], d).v, env(k).v)
    if not isinstance(N, SInt):
        for k in range(N): unfold(k)
    inv = EnvInv("cell-environment", env, unfold, d)
    c.data["loop_handler"] = lambda rng, locs, lid: inv
    def start_env(x):
        """the environment the recursion starts from"""
        return Arr(env(beg).v) if x is not None and x.ndim == 3 and T.equal(x.v, first.v)[0] else x

    def init(mps, boundary, mpsC, mpo, direction):
        if not (direction > 0 or direction < 0): return None
        x = spec_addlayer(A.expand_dims(boundary, 2), mps, mpo, mpsC, direction)
        ensure_eq("cell-environment.start", x, first)
        return start_env(x)
    al = layers()["addLayer"]
    sol = sym("X", D, D, cx=cx or wx)
    calls = []
    x0 = A.reshape(sym("x0", D, D, cx=False), (D * D,))

    def solve(mps, ldens, rdens, inhom, x0_, tolerance=1e-10, maxiteration=2000, datatype=float, direction=1):
        """contract of TDVPGMRESUC (group linear-equation)"""
        calls.append(inhom)
        c.ob("cell-environment.equation-arguments", mps is X and ldens is ld and rdens is rd and bool(direction > 0) == (d > 0), "engine", "equation of another cell")
        c.ob("cell-environment.equation-dtype", (datatype.kind == "c") == (cx or wx), "engine", "solved as %s" % datatype)
        ensure_eq("cell-environment.initial-guess", x0_, x0)
        g = env(end)[:, :, done]
        h = spec([g, (rd[N] if d > 0 else ld[0])], ["ab", "ab"], "")
        ensure_eq("cell-environment.inhomogeneity", A.reshape(inhom, (D, D)), g - A.np_eye(D) * h)
        return flat(sol), 0
    X = as_mps(ts, N, b) if c.choose(2, "as state") else ts
    if X is not ts: X._dtype = A.CPLX if cx else A.FLOAT
    with patched(mf, TDVPGMRESUC=solve, initializeLayer=init, addLayer=lambda *a: start_env(al(*a))):
        out, h = returned("computeUCsteadyStateHamiltonianGMRES", call("compute", mf.computeUCsteadyStateHamiltonianGMRES, X, o, x0, ld, rd, d, 1e-10, 1000))
    c.ob("cell-environment.solved-once", len(calls) == 1, "engine")
    g = env(end)
    ensure_shape("cell-environment.shape", out, (D, D, m(end)))
    ensure_eq("cell-environment.energy", A.toarr(h), spec([g[:, :, done], (rd[N] if d > 0 else ld[0])], ["ab", "ab"], ""))
    ensure_eq("cell-environment.energy-channel", out[:, :, done], sol)
    sl = slice(1, None) if d > 0 else slice(0, -1)
    ensure_eq("cell-environment.other-channels", out[:, :, sl], g[:, :, sl])
    ensure_frame("cell-environment.frame", t0, w0, ld[0], ld[N], rd[0], rd[N], x0)


R.group("cell-environment", ["mpsfunctions.computeUCsteadyStateHamiltonianGMRES"])(lambda: environment_case())
R.fallback("cell-environment", "cells of 1 to 3 sites, symbolic dimensions and entries")(lambda: environment_case(1 + C().choose(3)))


# ---- lemmas ------------------------------------------------------------------------------------------------------------
class Structured:
    """operator tensors of nearest-neighbour form at sites k-1, k; cuts k-1, k, k+1"""
    def __init__(s):
        s.K = {}
        s.none = bool(C().choose(2, "no bond terms"))

    def mid(s, k): return 0 if s.none else dim("K%d" % k)
    def D(s, k): return dim("a%d" % k)
    def d(s, k): return dim("d%d" % k)
    def h(s, k): return sym("h%d" % k, s.d(k), s.d(k))
    def a(s, k): return sym("a%d" % k, s.mid(k + 1), s.d(k), s.d(k))
    def b(s, k): return sym("b%d" % k, s.mid(k), s.d(k), s.d(k))
    def T(s, k): return sym("T%d" % k, s.D(k), s.D(k + 1), s.d(k))

    def W(s, k):
        w = A.np_zeros((s.mid(k) + 2, s.mid(k + 1) + 2, s.d(k), s.d(k)), dtype=A.CPLX)
        w[0, 0, :, :] = A.np_eye(s.d(k))
        w[-1, -1, :, :] = A.np_eye(s.d(k))
        w[-1, 0, :, :] = s.h(k)
        if not s.none:
            w[-1, 1:-1, :, :] = s.a(k)
            w[1:-1, 0, :, :] = s.b(k)
        return w

    def isometry(s, k, d):
        t = s.T(k)
        if d > 0: T.add_rule("T+T", T.einsum([t.v, T.conj(t.v)], [list("abs"), list("acs")], list("bc")), T.eye(s.D(k + 1), None, True))
        else: T.add_rule("TT+", T.einsum([t.v, T.conj(t.v)], [list("abs"), list("cbs")], list("ac")), T.eye(s.D(k), None, True))

    def env(s, x, mid, d, k):
        """[energy channel, middle channels, identity] assembled for the cut k"""
        g = A.np_zeros((s.D(k), s.D(k), s.mid(k) + 2), dtype=A.CPLX)
        e, i = (0, -1) if d > 0 else (-1, 0)
        g[:, :, i] = A.np_eye(s.D(k))
        if x is not None: g[:, :, e] = x
        if not s.none and mid is not None: g[:, :, 1:-1] = mid
        return g

    def started(s, k, d):
        """middle channels after site k: they come from the identity alone"""
        t = s.T(k)
        if d > 0: return spec([t, s.a(k), A.conj(t)], ["abs", "nst", "adt"], "bdn")
        return spec([t, s.b(k), A.conj(t)], ["abs", "mst", "cbt"], "acm")


@R.group("lemma.growth", ["(lemma) adding one cell to the environment adds the energy once"])
def _():
    """G_0 = start terms of the neighbouring site; G_(k+1) = layer(G_k).  The environment G' with the solution x in the energy channel satisfies
    G'_k = G_k + x_k (energy channel), x_0 = x, x_(k+1) = E_k(x_k); after the cell the other channels are back at their first values and
    x_N = E(x) = x + <x,r> - G_N[energy] + h, <x,r> = 0"""
    s = Structured()
    d = 1 if C().choose(2) else -1
    w = C().choose(3)
    i, o = (1, 2) if d > 0 else (2, 1)
    s.isometry(1, d)
    if w == 0:      # one step: channels other than energy are the identity and what started at the site; energy adds up linearly
        g = sym("g", s.D(i), s.D(i)), None if s.none else sym("gm", s.D(i), s.D(i), s.mid(i))
        x = sym("x", s.D(i), s.D(i))
        G = addlayer(s.env(g[0], g[1], d, i), s.T(1), s.W(1), d)
        Gx = addlayer(s.env(g[0] + x, g[1], d, i), s.T(1), s.W(1), d)
        ex = s.env(E(d, s.T(1), s.T(1), x), None, d, o) - s.env(None, None, d, o)
        ensure_eq("lemma.growth.linear", Gx, G + ex)
        sl = slice(1, None) if d > 0 else slice(0, -1)
        want = s.env(None, None if s.none else s.started(1, d), d, o)
        ensure_eq("lemma.growth.channels", G[:, :, sl], want[:, :, sl])
    elif w == 1:    # the first environment: started on the neighbouring site, with no energy
        start = A.np_zeros(((1, s.mid(2) + 2) if d > 0 else (s.mid(1) + 2, 1)) + (s.d(1), s.d(1)), dtype=A.CPLX)
        W = s.W(1)
        if d > 0: start[0, 1:, :, :] = W[-1, 1:, :, :]
        else: start[:-1, 0, :, :] = W[:-1, 0, :, :]
        g = addlayer(A.expand_dims(A.np_eye(s.D(i)), 2), s.T(1), start, d)
        ensure_eq("lemma.growth.start", g, s.env(None, None if s.none else s.started(1, d), d, o))
    else:           # the equation of the cell: D = bond of the cell
        D = dim("D")
        x, r, g, cellT = sym("x", D, D), sym("r", D, D), sym("gN", D, D), sym("E", D, D, D, D)
        one = A.np_eye(D)
        Ex = lambda y: spec([cellT, y], ["abcd", "ab"], "cd")
        h = spec([g, r], ["ab", "ab"], "")
        T.add_rule("tr r", T.einsum([r.v], [list("aa")], []), T.scalar(Poly.const(1)))
        T.add_rule("E(r)=r", T.einsum([cellT.v, r.v], [list("abcd"), list("cd")], list("ab")), r.v)
        xr = spec([x, r], ["ab", "ab"], "")
        # x - E(x) + <x,r> 1 = g - h 1; paired with r
        pair = lambda y: spec([y, r], ["ab", "ab"], "")
        lhs, rhs = x - Ex(x) + one * xr, g - one * h
        ensure_eq("lemma.growth.pairing-left", pair(lhs), xr)
        ensure_eq("lemma.growth.pairing-right", pair(rhs), A.toarr(0))
        T.add_rule("<x,r>=0", xr.v, T.scalar(Poly.const(0)))
        T.add_rule("equation", Ex(x).v, (x - g + one * h).v, both=False)
        ensure_eq("lemma.growth.cell", g + Ex(x), x + one * h)


@R.group("lemma.energy", ["(lemma) the returned number is the sum of all terms of one cell"])
def _():
    """e_k = <G_k[energy], density at the cut k>: e_0 = 0, every site adds its local term and the bond term with the site before it"""
    s = Structured()
    d = 1 if C().choose(2) else -1
    # cuts 1, 2, 3; sites 1, 2.  rightwards: site 1 is passed, then site 2; leftwards: site 2, then site 1
    p, q = (1, 2) if d > 0 else (2, 1)
    i, mid, o = (1, 2, 3) if d > 0 else (3, 2, 1)
    s.isometry(1, d); s.isometry(2, d)
    r = {k: sym("r%d" % k, s.D(k), s.D(k)) for k in (1, 2, 3)}
    t = s.T(q)
    if d > 0: T.add_rule("density", T.einsum([r[3].v, t.v, T.conj(t.v)], [list("bd"), list("abs"), list("cds")], list("ac")), r[2].v, both=False)
    else: T.add_rule("density", T.einsum([r[1].v, t.v, T.conj(t.v)], [list("ac"), list("abs"), list("cds")], list("bd")), r[2].v, both=False)
    g = sym("g", s.D(mid), s.D(mid))
    G = addlayer(s.env(g, None if s.none else s.started(p, d), d, mid), t, s.W(q), d)
    e = lambda y, k: spec([y, r[k]], ["ab", "ab"], "")
    ch = 0 if d > 0 else -1
    if d > 0: loc = spec([t, s.h(q), A.conj(t), r[3]], ["abs", "st", "adt", "bd"], "")
    else: loc = spec([t, s.h(q), A.conj(t), r[1]], ["abs", "st", "cbt", "ac"], "")
    want = e(g, mid) + loc
    if not s.none:
        if d > 0:
            two = spec([s.T(1), s.T(2)], ["abs", "bct"], "acst")
            want = want + spec([two, s.a(1), s.b(2), A.conj(two), r[3]], ["acst", "nsu", "ntv", "aduv", "cd"], "")
        else:
            two = spec([s.T(1), s.T(2)], ["abs", "bct"], "acst")
            want = want + spec([two, s.a(1), s.b(2), A.conj(two), r[1]], ["acst", "nsu", "ntv", "dcuv", "ad"], "")
    ensure_eq("lemma.energy.site", e(G[:, :, ch], o), want)


# ---- the linear equations -----------------------------------------------------------------------------------------------
class Solver:
    """contract of scipy's lgmres: a vector x with operator(x) = right hand side; the operator is probed"""
    def __init__(s, want, shape, b, x0, cx, name, fail=0):
        s.want, s.shp, s.b, s.x0, s.cx, s.name, s.fail, s.calls = want, shape, b, x0, cx, name, fail, 0
        n = shape[0] * shape[1]
        s.n, s.x = n, A.reshape(sym("solution", *shape, cx=cx), (n,))

    def linop(s, shape, matvec=None, rmatvec=None, matmat=None, dtype=None):
        ensure(s.name + ".dimension", core.SBool(z3.And(zint(shape[0]) == zint(s.n), zint(shape[1]) == zint(s.n))))
        C().ob(s.name + ".dtype", (dtype.kind == "c") == s.cx, "engine", "operator of dtype %s" % dtype)
        return A.Namespace("LinearOperator", shape=shape, matvec=matvec, dtype=dtype)

    def lgmres(s, op, b, x0=None, tol=1e-5, maxiter=1000, M=None, inner_m=30, outer_k=3, **kw):
        if kw or M is not None: raise Unsupported("options of lgmres")
        s.calls += 1
        ensure_eq(s.name + ".right-hand-side", b, s.b)
        C().ob(s.name + ".tolerance", tol is s.tol, "engine", "tolerance %s" % tol)
        if s.x0 is not None: ensure_eq(s.name + ".initial-guess", x0, s.x0)
        y = A.reshape(sym("probe%d" % s.calls, *s.shp, cx=s.cx), (s.n,))
        ensure_eq(s.name + ".operator", op.matvec(y), s.want(y))
        if s.calls <= s.fail: return A.reshape(sym("broken%d" % s.calls, *s.shp, cx=s.cx), (s.n,)), -1
        return s.x, 0

    def patches(s):
        spns = A.Namespace("scipy", sparse=A.Namespace("sparse", linalg=A.Namespace("linalg", lgmres=s.lgmres)))
        return dict(sp=spns, LinearOperator=s.linop, lgmres=s.lgmres)


@R.group("linear-equation", ["mpsfunctions.TDVPGMRESUC"])
def _():
    mf = MF()
    c = C()
    cx = bool(c.choose(2))
    d = 1 if c.choose(2) else -1
    N, b, m, ts, ws, o = cell(cx, cx)
    ld, rd = densities(N, b, "ld", cx), densities(N, b, "rd", cx)
    D = b(0)
    X = as_mps(ts, N, b) if c.choose(2, "as state") else ts
    op = sym("O", D, D, D, D, cx=cx)
    want = lambda y: A.reshape(spec([op, A.reshape(y, (D, D))], ["abcd", "ab"], "cd"), (D * D,))

    def pseudo(direction, mps, ldens, rdens, vector):
        """contract of OneMinusPseudoUnitcellTransferOperator (C04)"""
        c.ob("linear-equation.operator-arguments", mps is X and ldens is ld and rdens is rd and bool(direction > 0) == (d > 0), "engine", "operator of other arguments")
        return want(vector)
    rhs, x0 = A.reshape(sym("b", D, D, cx=cx), (D * D,)), A.reshape(sym("x0", D, D, cx=False), (D * D,))
    s = Solver(want, (D, D), rhs, x0, cx, "linear-equation")
    s.tol = 3e-11
    with patched(mf, OneMinusPseudoUnitcellTransferOperator=pseudo, **s.patches()):
        x, info = returned("TDVPGMRESUC", call("TDVPGMRESUC", mf.TDVPGMRESUC, X, ld, rd, rhs, x0, s.tol, 100, datatype=A.CPLX if cx else A.FLOAT, direction=d))
    ensure_eq("linear-equation.solution", x, s.x)
    c.ob("linear-equation.info", info == 0, "engine")
    ensure_frame("linear-equation.frame", rhs, x0)


@R.group("block-equation", ["mpsfunctions.RENORMBLOCKHAMGMRES", "mpsfunctions.TDVPGMRES"])
def _():
    mf = MF()
    c = C()
    cx = bool(c.choose(2))
    d = 1 if c.choose(2) else -1
    D, P, s_ = dim("D"), dim("P"), dim("s")
    U, L = sym("U", D, D, s_, cx=cx), sym("L", P, P, s_, cx=cx)
    r, l = sym("r", D, P, cx=cx), sym("l", D, P, cx=cx)
    k = rscalar("k") if cx and c.choose(2) else 0.0
    op = sym("O", D, P, D, P, cx=cx)
    want = lambda y: A.reshape(spec([op, A.reshape(y, (D, P))], ["abcd", "ab"], "cd"), (D * P,))

    def pseudo(Upper, Lower, r_, l_, direction, momentum, vector):
        """contract of OneMinusPseudoTransferOperator (C04)"""
        c.ob("block-equation.operator-arguments", Upper is U and Lower is L and r_ is r and l_ is l and bool(direction > 0) == (d > 0) and momentum is k, "engine", "operator of other arguments")
        return want(vector)
    inh = sym("b", D, P, cx=cx)
    s = Solver(want, (D, P), flat(inh), None, cx, "block-equation", c.choose(2, "breakdown"))
    s.tol = 3e-11
    x0 = None if c.choose(2) else A.reshape(sym("x0", D, P, cx=False), (D * P,))
    fn = "TDVPGMRES" if c.choose(2) else "RENORMBLOCKHAMGMRES"
    f = getattr(mf, fn)
    with patched(mf, OneMinusPseudoTransferOperator=pseudo, **s.patches()):
        x = returned(fn, call(fn, f, U, L, r, l, inh, x0, s.tol, 100, d, k))
    ensure_shape("block-equation.shape", x, (D, P))
    ensure_eq("block-equation.solution", x, A.reshape(s.x, (D, P)))
    ensure_frame("block-equation.frame", U, L, r, l, inh)


# ---- the state as an object -----------------------------------------------------------------------------------------------
def side(direction):
    if bool(direction > 0): return 1
    if bool(direction < 0): return -1
    raise VCFail("object.direction", "direction %s" % direction)


class Run22:
    """ghost state of getBoundaryHams: the gauge the state is in, whether the cell is closed, the fixed points and densities handed out"""
    def __init__(s):
        N = s.N = sint("N")
        assume(N >= 1)
        if bool(N == 1): N = s.N = 1
        p = sint("pos")
        assume(p >= 0); assume(p <= N)
        p = 0 if bool(p == 0) else N if bool(p == N) else p
        s.D = dim("D")
        s.cnt, s.gauge, s.env, s.dens, s.dirs = 0, None, {}, [], []
        s.bare()
        s.m = mps_obj(N, s.family(), p, s.mat, cscalar("Z0"), obc=False)
        s.m._connector = s.con
        s.side = None if p is not 0 and p is not N else (1 if p is N else -1)
        s.m.__dict__["__position__"] = s.m.__dict__["position"] = s.position
        s.m.__dict__["__regauge__"] = s.m.__dict__["regauge"] = s.regauge
        s.phase_rule()

    def bare(s):
        """new tensors and centre matrix; the connector stays unless the state is regauged"""
        s.cnt += 1
        k = s.cnt
        s.ten = lambda q, k=k: sym("A%d[%s]" % (k, "N-1" if bool(q == s.N - 1) else "0" if bool(q == 0) else pint(q)), s.bond(k, q), s.bond(k, q + 1), bonddim("d", q))
        s.mat = sym("M%d" % k, s.D, s.D)
        if k == 1: s.con = sym("connector1", s.D, s.D)
        s.closed = False

    def family(s):
        ten = s.ten
        if s.N == 1: return VList([ten(0)])
        return VList.family(lambda q: ten(SInt.mk(pint(q))), s.N)

    def bond(s, k, q):
        if bool(q == 0) or bool(q == s.N): return s.D
        return bonddim("b%d" % k, q)

    def phase(s): return spec([s.mat, s.con], ["ab", "bc"], "ac") if s.side > 0 else spec([s.con, s.mat], ["ab", "bc"], "ac")

    def phase_rule(s):
        """quantifier: isometric tensors on either side of the centre and a unitary phase matrix (symmetric gauge; after a regauging: lemma.phase)"""
        if s.side is None: return
        f = s.phase()
        one = T.eye(s.D, None, True)
        T.add_rule("phase unitary", T.einsum([f.v, T.conj(f.v)], [list("ab"), list("cb")], list("ac")), one)
        T.add_rule("phase unitary", T.einsum([f.v, T.conj(f.v)], [list("ab"), list("ac")], list("bc")), one)

    def position(s, k, *a, **kw):
        C().ob("object.moves", not a and not kw, "engine", "the centre is moved with truncation")
        if s.side is not None: s.same_state()
        if bool(s.m._position == k): return
        C().ob("object.moved-to-an-end", bool(k == 0) or bool(k == s.N), "engine", "centre moved to %s" % k)
        s.side = 1 if bool(k == s.N) else -1
        s.bare()
        s.m._tensors = s.family()
        s.m._mat, s.m._position = s.mat, (s.N if s.side > 0 else 0)
        s.m._Z = cscalar(C().fresh("Z"))
        s.phase_rule()

    def regauge(s, gauge, *a, **kw):
        C().ob("object.gauge", gauge == "symmetric", "engine", "regauged as %s" % gauge)
        s.gauge, s.side = gauge, 1
        s.bare()
        s.con = sym("connector%d" % s.cnt, s.D, s.D)
        s.m._tensors = s.family()
        s.m._mat, s.m._connector, s.m._position = s.mat, s.con, s.N
        s.phase_rule()

    def cell(s, q):
        """tensor of the closed cell: the phase matrix absorbed at the end the centre is at"""
        t = s.ten(q)
        if s.side > 0: return spec([t, s.phase()], ["abs", "bc"], "acs") if bool(q == s.N - 1) else t
        return spec([s.phase(), t], ["ab", "bcs"], "acs") if bool(q == 0) else t

    def same_state(s):
        """the tensor at the end and the centre matrix, together, are what they were after the last move"""
        m, e = s.m, (s.N - 1 if s.side > 0 else 0)
        if s.side > 0: got, want = spec([m._tensors[e], m._mat], ["abs", "bc"], "acs"), spec([s.ten(e), s.mat], ["abs", "bc"], "acs")
        else: got, want = spec([m._mat, m._tensors[e]], ["ab", "bcs"], "acs"), spec([s.mat, s.ten(e)], ["ab", "bcs"], "acs")
        ensure_eq("object.state-unchanged", got, want)
        s.others("object.state-unchanged", m._tensors, s.ten)
        C().ob("object.state-unchanged", m._connector is s.con or T.equal(A.toarr(m._connector).v, s.con.v)[0], "engine", "connector changed")

    def others(s, nm, ts, fn):
        aside(lambda: s.others_(nm, ts, fn))

    def others_(s, nm, ts, fn):
        if isinstance(s.N, SInt):
            q = sint(C().fresh("q"))
            assume(q >= 0); assume(q < s.N)
        else: q = 0
        q = s.N - 1 if bool(q == s.N - 1) else 0 if bool(q == 0) else q
        if fn is s.ten and (bool(q == s.N - 1) if s.side > 0 else bool(q == 0)): return
        ensure_eq(nm, ts[q], fn(q))

    def cellarg(s, nm, ts):
        C().ob(nm, isinstance(ts, VList), "engine", "not a list of tensors")
        ensure(nm, ts.symlen() == s.N)
        s.others(nm, ts, s.cell)

    def eigs(s, mps, direction, numeig, init=None, nmax=800, tolerance=1e-12, ncv=10, which="LM"):
        """contract of UnitcellTMeigs (C04): a multiple of the positive fixed point"""
        if which not in ("LR", "LM"): raise Unsupported("which=%s" % which)
        s.cellarg("object.eigenvector-of-the-closed-cell", mps)
        d = side(direction)
        C().ob("object.eigenvector-side", d == -s.side, "engine", "left eigenvector of left isometric tensors (or right of right)")
        C().ob("object.eigenvector-accuracy", tolerance <= 1e-6 and nmax >= 100 and numeig >= 1, "engine", "tolerance %s" % tolerance)
        if init is not None: ensure_shape("object.initial-vector", init, (s.D * s.D,))
        X = sym("X%d" % s.cnt, s.D, s.D)
        P = spec([X, A.conj(X)], ["ax", "bx"], "ab")
        T.add_rule("tr P = 1", T.einsum([X.v, T.conj(X.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
        s.P, s.Pdir = P, d
        return cscalar(C().fresh("eta")), A.reshape(P, (s.D * s.D,)) * cscalar(C().fresh("kappa")), numeig

    def fix(s, X):
        """contract of fixPhase (C02): a positive multiple of X / tr X"""
        ensure_eq("object.fixed-point", spec([X, s.P], ["ab", "cd"], "abcd"), spec([s.P, X], ["ab", "cd"], "abcd"))
        C().ob("object.fixed-point", bool(A.toarr(X).v.terms), "engine", "zero matrix")
        return s.P * posreal(C().fresh("nu"))

    def density(s, dens0, mps, direction, *a, **k):
        s.cellarg("object.densities-of-the-closed-cell", mps)
        d = side(direction)
        if d == s.Pdir: ensure_eq("object.density-start", dens0, s.P)
        else: ensure_eq("object.density-start", dens0, A.np_eye(s.D))
        tok = VList.family(lambda q, n=C().fresh("rho"): sym("%s[%s]" % (n, pint(q)), s.D, s.D), s.N + 1)
        s.dens.append((tok, d, s.cnt))
        return tok

    def environment(s, mps, mpo, x0, ldens, rdens, direction, thresh, imax):
        s.cellarg("object.environment-of-the-closed-cell", mps)
        d = side(direction)
        C().ob("object.environment-side", d == s.side and d not in s.env, "engine", "environment of the wrong side")
        C().ob("object.environment-operator", mpo is s.op, "engine", "another operator")
        C().ob("object.environment-densities", any(t is ldens and e == 1 and k == s.cnt for t, e, k in s.dens) and any(t is rdens and e == -1 and k == s.cnt for t, e, k in s.dens), "engine", "densities of another cell or side")
        ensure_shape("object.environment-guess", A.reshape(x0, (s.D * s.D,)), (s.D * s.D,))
        C().ob("object.environment-accuracy", thresh <= 1e-8 and imax >= 100, "engine", "solved to %s in %s iterations" % (thresh, imax))
        s.env[d] = sym("env%+d" % d, s.D, s.D, dim("chi")), cscalar("h%+d" % d), s.P
        return s.env[d][0], s.env[d][1]

    def allclose(s, x, y, rtol=1e-5, atol=1e-8):
        """the quantifier asks for a unitary phase matrix; the comparison is taken as exact"""
        f = s.phase()
        ok = False
        for u, v in ((x, y), (y, x)):
            for lab in (["ab", "cb"], ["ab", "ac"]):
                ok = ok or T.equal(A.toarr(u).v, T.einsum([f.v, T.conj(f.v)], [list(lab[0]), list(lab[1])], list("ac" if lab[1] == "cb" else "bc")))[0] and T.equal(A.toarr(v).v, T.eye(s.D, None, True))[0]
        if not ok: raise Unsupported("allclose of other matrices")
        return True


@R.group("object", ["mpsfunctions.getBoundaryHams"])
def _():
    from .C14 import Namespace_
    mf = MF()
    c = C()
    s = Run22()
    s.op = object()
    rg = bool(c.choose(2))
    np_ = mf.np
    with patched(mf, UnitcellTMeigs=s.eigs, fixPhase=s.fix, computeDensity=s.density, computeUCsteadyStateHamiltonianGMRES=s.environment, np=Namespace_(np_, allclose=s.allclose)):
        lb, rb, lbound, rbound, hl, hr = returned("getBoundaryHams", call("getBoundaryHams", mf.getBoundaryHams, s.m, s.op, rg))
    s.same_state()
    c.ob("object.regauged", (s.gauge is not None) == rg, "engine", "regauged without being asked to, or not regauged")
    c.ob("object.both-sides", set(s.env) == {1, -1}, "engine", "environments of the sides %s" % sorted(s.env))
    ensure_eq("object.left-environment", lb, s.env[1][0])
    ensure_eq("object.right-environment", rb, s.env[-1][0])
    ensure_eq("object.left-energy", A.toarr(hl), A.toarr(s.env[1][1]))
    ensure_eq("object.right-energy", A.toarr(hr), A.toarr(s.env[-1][1]))
    # the fixed point on the side of the environment: trace one, of the cell the other environment belongs to
    ensure_eq("object.left-fixed-point", lbound, s.env[-1][2])
    ensure_eq("object.right-fixed-point", rbound, s.env[1][2])


@R.group("lemma.phase", ["(lemma) in symmetric gauge the phase matrix is unitary at both ends"])
def _():
    """at the right end the centre matrix is W and the connector 1/W; moved to the left end A0..A(N-1) W = M B0..B(N-1), so that M M+ = E_A(W W+) = W W+
    (W^2 is the right fixed point of the left isometric cell: C18) and (1/W) M is unitary"""
    D = dim("D")
    w = Arr(T.symbol("w", (D,), False))
    W, V = A.diag(w), A.diag(1.0 / w)
    ensure_eq("lemma.phase.right-end", spec([W, V], ["ab", "bc"], "ac"), A.np_eye(D))
    M = sym("M", D, D)
    T.add_rule("MM+", T.einsum([M.v, T.conj(M.v)], [list("ab"), list("cb")], list("ac")), spec([W, A.conj(W)], ["ab", "cb"], "ac").v)
    f = spec([V, M], ["ab", "bc"], "ac")
    ensure_eq("lemma.phase.left-end", spec([f, A.conj(f)], ["ab", "cb"], "ac"), A.np_eye(D))


# ---- uniform optimisation ------------------------------------------------------------------------------------------------
from . import vumps


@R.group("vumps.step", ["VUMPSengine.__init__", "VUMPSengine.__doStep__", "mpsfunctions.initializeLayer", "mpsfunctions.addLayer"])
def _(): vumps.step("vumps")


@R.group("vumps.simulate", ["VUMPSengine.simulate", "VUMPSengine.__simulate__"], bounded_only=True, bound="up to 12 iterations")
def _(): vumps.simulate("vumps.simulate")


@R.group("vumps.equation", ["(lemma) the solution of the projected equation has no component along the projection"])
def _(): vumps.lemma("vumps.equation")


@R.group("gradient.step", ["HomogeneousIMPSengine.__init__", "HomogeneousIMPSengine.__doGradStep__", "mpsfunctions.initializeLayer", "mpsfunctions.addLayer"])
def _(): vumps.gradient("gradient")
