"""C23: state constructors create the described state, and the shape queries describe it."""
from .base import *
from .callee import *
from .C16 import cell, dtype_loop
R = Registry()


def tensors(name, obc, N=None):
    if N is None:
        N = sint("N")
        assume(N >= (2 if obc else 1))
    if isinstance(N, int): return chain(name, N, obc=obc), None, N
    fam, b = obc_family(name, N, name + "D") if obc else cell(name, N)
    return VList.family(lambda q: fam[SInt.mk(q)], N), b, N


def handler(N):
    f = dtype_loop(N)
    C().data["loop_handler"] = f


def represents(name, m, ts, N, obc, mat=True):
    """m holds its own copies of the tensors ts, centre matrix 1/sqrt(D) on the last bond, centre at the right end"""
    j = sint("j")
    assume(j >= 0); assume(j < N)
    C().ob(name + ".own-list", m._tensors is not ts, "engine", "the list of the caller is used")
    ensure(name + ".length", vl(m._tensors) == N)
    ensure_eq(name + ".tensors", m._tensors[j], ts[j])
    C().ob(name + ".own-arrays", root(m._tensors[j]) is not root(ts[j]), "engine", "an array of the caller is used")
    ensure(name + ".local-dimensions", m._d[j] == ts[j].shape[2])
    ensure(name + ".site-number", m._N == N)
    ensure(name + ".centre", m._position == N)
    C().ob(name + ".boundary", bool(m._obc) == obc, "engine", "boundary condition %s" % m._obc)
    C().ob(name + ".dtype", m._dtype.kind == "c", "engine")


def root(a):
    while getattr(a, "base", None) is not None and a.base is not a: a = a.base
    return a


@R.group("constructor", ["MPS.__init__"])
def _():
    M = MPSM()
    obc = bool(C().choose(2))
    ts, b, N = tensors("T", obc)
    handler(N)
    if not obc: assume(ts[0].shape[0] >= 2)
    m = call("MPS", M.MPS, ts)
    represents("MPS", m, ts, N, obc)
    D = ts[N - 1].shape[1]
    # any multiple of the identity whose inverse is the connector: |mat| = 1
    ensure_eq("MPS.mat.norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1))
    ensure_eq("MPS.connector", spec([m._mat, m._connector], ["ab", "bc"], "ac"), A.np_eye(D))


@R.group("queries", ["MPS.D", "MPS.__D__", "MPS.d", "MPS.Dmax", "MPS.obc", "MPS.pos", "MPS.dtype", "MPS.tensors", "MPS.__len__", "MPS.resetZ"])
def _():
    MPSM()
    obc = bool(C().choose(2))
    ts, b, N = tensors("T", obc)
    p = sint("pos")
    assume(p >= 0); assume(p <= N)
    m = mps_obj(N, ts, p, sym("mat", b(p), b(p)), cscalar("Z"), obc)
    m._D, m._dtype = sint("limit"), A._np.dtype(float)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    Ds = call("D", lambda: m.D)
    ensure("D.length", vl(Ds) == N + 1)
    ensure("D.left", Ds[j] == b(j))
    ensure("D.right", Ds[j + 1] == b(j + 1))
    ds = call("d", lambda: m.d)
    ensure("d.length", vl(ds) == N)
    ensure("d", ds[j] == ts[j].shape[2])
    C().ob("Dmax", call("Dmax", lambda: m.Dmax) is m._D, "engine")
    x = sint("newlimit")
    def setit(): m.Dmax = x
    call("Dmax.set", setit)
    C().ob("Dmax.set", m._D is x and m.Dmax is x, "engine")
    C().ob("obc", bool(m.obc) == obc, "engine")
    C().ob("dtype", m.dtype == m._dtype, "engine")
    ensure("pos", m.pos == p)
    C().ob("tensors", m.tensors is m._tensors, "engine")
    ensure("len", call("len", m.__len__) == N)
    call("resetZ", m.resetZ)
    ensure_eq("resetZ", A.toarr(m._Z), A.toarr(1))


class Moved:
    """contract of MPS.__position__ (C01): the represented state stays the same; sites the centre has passed are isometries, and
    the norm of the centre matrix moves into the norm factor (positive multiple)"""
    def __init__(s): s.log, s.first, s.n = [], None, 0

    def __call__(s, m, bond, schmidt_thresh=1e-16, D=None, r_thresh=1e-14):
        N = m._N
        if not (bond >= 0) or not (bond <= N): raise VCFail("position.pre", "bond outside the chain")
        if s.first is None: s.first = (m._tensors, m._mat, m._Z, m._position)
        if D is not None or not (isinstance(schmidt_thresh, float) and schmidt_thresh <= 1e-15): raise VCFail("constructor.no-truncation", "the state is truncated while it is created")
        if bool(m._position == bond): return
        s.log.append((m._position, bond))
        s.n += 1
        fam, b = obc_family("g%d" % s.n, N, "gD%d" % s.n) if m._obc else cell("g%d" % s.n, N)
        m._tensors = VList.family(lambda q: fam[SInt.mk(q)], N)
        m._mat = sym("gmat%d" % s.n, b(bond), b(bond))
        m._Z = m._Z * posreal("zeta%d" % s.n)
        m._position = bond
        s.last = (m._tensors, m._mat)


def canonical(name, m, mv, N):
    """the tensors are those after the centre went through the whole chain, none changed since; normalised"""
    seen0 = [k for k, (a, b) in enumerate(mv.log) if bool(b == 0)]
    C().ob(name + ".whole-chain", bool(seen0) and any(bool(b == N) for a, b in mv.log[seen0[0]:]), "engine", "the centre does not sweep the whole chain: %s" % mv.log)
    ensure(name + ".centre", m._position == N)
    C().ob(name + ".state", mv.last[0] is m._tensors and not m._tensors.sym["over"] and mv.last[1] is m._mat and m._mat.version == 0, "engine", "the tensors are changed after the sweep")
    ensure_eq(name + ".norm-factor", A.toarr(m._Z), A.toarr(1))


@R.group("fromList", ["MPS.fromList"])
def _():
    M = MPSM()
    obc = bool(C().choose(2))
    ts, b, N = tensors("T", obc)
    if not obc: assume(ts[0].shape[0] >= 2)
    handler(N)
    given = C().choose(2)
    mat = sym("mat", b(N), b(N)) if given else None
    mv = Moved()
    with methods(M.MPS, __position__=lambda s, *a, **k: mv(s, *a, **k)):
        m = call("fromList", M.MPS.fromList, ts, mat) if given else call("fromList", M.MPS.fromList, ts)
    first = mv.first
    if first is None: raise VCFail("fromList.canonical", "the centre is never moved")
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure("fromList.length", vl(first[0]) == N)
    ensure_eq("fromList.tensors", first[0][j], ts[j])
    ensure("fromList.tensors.centre", first[3] == N)
    if given:
        ensure_eq("fromList.mat", first[1], mat)
        C().ob("fromList.own-mat", root(first[1]) is not root(mat), "engine")
        ensure_frame("fromList.frame", mat)
    C().ob("fromList.own-list", first[0] is not ts and not ts.sym["over"], "engine")
    C().ob("fromList.own-arrays", root(first[0][j]) is not root(ts[j]), "engine")
    C().ob("fromList.nonzero", first[2] != 0, "engine", "initial norm factor 0")
    canonical("fromList", m, mv, N)
    C().ob("fromList.boundary", bool(m._obc) == obc, "engine")


def filled(kind):
    M, mf = MPSM(), MF()
    obc = bool(C().choose(2))
    cx = bool(C().choose(2))
    ts, b, N = tensors("T", obc)
    if not obc: assume(ts[0].shape[0] >= 1)
    handler(N)
    D, d = sint("D"), VList.family(lambda q: bonddim("d", SInt.mk(q)), N)
    assume(D >= 1)
    dt = complex if cx else float
    seen = []

    def init(numpyfun, length, D_, d_, obc_=True, dtype=float, scale=1.0, shift=0.5, **kw):
        if "obc" in kw: obc_ = kw.pop("obc")
        if kw: raise Unsupported("options of MPSinitializer")
        seen.append(numpyfun)
        ensure(kind + ".length", length == N)
        ensure(kind + ".bond-dimension", D_ == D)
        C().ob(kind + ".local-dimensions", d_ is d, "engine")
        C().ob(kind + ".boundary", bool(obc_) == obc, "engine", "boundary condition %s" % obc_)
        C().ob(kind + ".dtype", A._np.dtype(dtype).kind == ("c" if cx else "f"), "engine", "dtype %s" % dtype)
        if kind == "ones": C().ob("ones.values", float(scale) * (1 - float(shift)) > 0, "engine", "entries (1-%s)*%s" % (shift, scale))
        else:
            ensure_eq("random.scaling", A.toarr(scale), A.toarr(sc))
            ensure_eq("random.shift", A.toarr(shift), A.toarr(sh))
        return ts
    mv = Moved()
    sc, sh = rscalar("scaling"), rscalar("shift")
    with patched(mf, MPSinitializer=init), methods(M.MPS, __position__=lambda s, *a, **k: mv(s, *a, **k)):
        if kind == "ones": m = call("ones", M.MPS.ones, N, D, d, obc, dtype=dt)
        else: m = call("random", M.MPS.random, N, D, d, obc, scaling=sc, dtype=dt, shift=sh)
    if mv.first is None: raise VCFail(kind + ".canonical", "the centre is never moved")
    C().ob(kind + ".initialised", len(seen) == 1, "engine")
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure_eq(kind + ".tensors", mv.first[0][j], ts[j])
    canonical(kind, m, mv, N)
    C().ob(kind + ".obc", bool(m._obc) == obc, "engine", "boundary condition of the state %s" % m._obc)


for _k in ("ones", "random"): R.group(_k, ["MPS." + _k])(lambda k=_k: filled(k))


def gen(shape, *a, **k):
    """the filling function: one (real) array per shape"""
    nm = "G[%s]" % ",".join(str(pint(x)) for x in shape)
    return sym(nm, *shape, cx=False)


def initializer(N=None):
    mf = MF()
    c = C()
    if N is None:
        N = sint("N")
        assume(N >= 2)
    obc, cx, homog = bool(c.choose(2)), bool(c.choose(2)), bool(c.choose(2))
    D = sint("D") if isinstance(N, SInt) else dim("D")
    if isinstance(D, SInt): assume(D >= 1)
    d = 2 if homog else (VList.family(lambda q: bonddim("d", SInt.mk(q)), N) if isinstance(N, SInt) else VList([bonddim("d", k) for k in range(N)]))
    sc, sh = rscalar("scale"), rscalar("shift")

    def element(k):
        k = SInt.mk(pint(k))
        l = 1 if obc and k == 0 else D
        r = 1 if obc and k == N - 1 else D
        g = gen((l, r, 2 if homog else bonddim("d", k)))
        return ((g - sh) + A.toarr(1j) * (g - sh)) * sc if cx else (g - sh) * sc
    c.data["loop_handler"] = lambda rng, locs, lid: ListInv("initializer", element).pick(rng, locs)
    out = call("MPSinitializer", mf.MPSinitializer, gen, N, D, d, obc, dtype=A._np.dtype(complex if cx else float), scale=sc, shift=sh)
    ensure("initializer.length", vl(out) == N)
    if isinstance(N, SInt):
        ensure_eq("initializer.first", out[0], element(0))
        ensure_eq("initializer.last", out[N - 1], element(N - 1))
        if not (N >= 3): return
        j = sint("j")
        assume(j >= 1); assume(j < N - 1)
        js = [j]
    else: js = range(N)
    for j in js: ensure_eq("initializer.element", out[j], element(j))


R.group("initializer", ["mpsfunctions.MPSinitializer"])(initializer)
R.fallback("initializer", "N<=4, symbolic dimensions and entries")(lambda: initializer(2 + C().choose(3)))


def product():
    M = MPSM()
    c = C()
    N = 1 + c.choose(3)
    obc = N > 1 and bool(c.choose(2))
    ds = [1 + c.choose(2) for _ in range(N)]
    only = c.choose(N)                            # the only complex one
    loc = [sym("v%d" % k, ds[k], cx=k == only) for k in range(N)]
    np_ = world().np
    zero = [None, 0, N - 1][c.choose(3)]          # one of the local states may be zero: it has no direction, refused

    def norm(x):
        ks = [k for k in range(N) if root(x) is root(loc[k])]
        if not ks: raise Unsupported("norm of something other than a local state")
        return 0.0 if ks[0] == zero else 1.0

    class NP:
        def __getattr__(s_, q): return getattr(np_, q)
        asarray = staticmethod(lambda x, *a, **k: A._np.asarray(x) if isinstance(x, list) and all(isinstance(y, (int, bool)) for y in x) else np_.asarray(x, *a, **k))
        linalg = A.Namespace("numpy.linalg", norm=norm)
    if zero is not None:
        with patched(M, np=NP()): ensure_raises("productState.zero-refused", lambda: M.MPS.productState(loc, obc), (ValueError,))
        return
    with patched(M, np=NP()):
        m = call("productState", M.MPS.productState, loc, obc)
    C().ob("product.boundary", bool(m._obc) == obc, "engine")
    ensure("product.centre", m._position == N)
    ensure_eq("product.amplitudes", amplitudes(m), spec([A.reshape(v, (v.shape[0],)) for v in loc], list("abc")[:N], "abc"[:N]))
    for k in range(N): ensure_shape("product.bond", m._tensors[k], (1, 1, ds[k]))
    C().ob("product.dtype", m._dtype.kind == "c", "engine")
    ensure_frame("product.frame", *loc)


R.group("product", ["MPS.productState"], bounded_only=True, bound="N<=3, local dimensions <=2, symbolic entries")(product)


@R.group("schmidt", ["MPS.getSchmidt"])
def _():
    M, mf = MPSM(), MF()
    m, fam, p, b = state("A")
    N = m._N
    n = sint("n")
    assume(n >= 0); assume(n <= N)
    log = []

    def position(s, bond, schmidt_thresh=1e-16, D=None, r_thresh=1e-14):
        if D is not None or schmidt_thresh > 1e-15: raise VCFail("schmidt.no-truncation", "the state is truncated")
        log.append(bond)
        s._position = bond
    U, S, V = sym("U", b(p), b(p)), sym("S", b(p), cx=False), sym("V", b(p), b(p))
    got = []

    def svd(x, *a, **k):
        got.append(x)
        if not log: raise VCFail("schmidt.bond", "the centre is not moved to the bond")
        return U, S, V
    with patched(mf, svd=svd), methods(M.MPS, __position__=position):
        r = call("getSchmidt", m.getSchmidt, n)
    ensure("schmidt.bond", m._position == n)
    C().ob("schmidt.matrix", len(got) == 1 and got[0] is m._mat, "engine", "singular values of something other than the centre matrix")
    ensure_eq("schmidt.values", r, S)
    C().ob("schmidt.state", not m._tensors.sym["over"] and m._mat.version == 0, "engine", "the state is changed")


@R.group("orthonormality", ["MPS.ortho", "MPS.__orthonormalization__"])
def _():
    M = MPSM()
    m, fam, p, b = state("A")
    N = m._N
    k = sint("k")
    assume(k >= 0); assume(k < N)
    left = bool(C().choose(2))
    got = call("ortho", m.ortho, k, 1 if left else -1)
    t = fam[k]
    e = spec([t, A.conj(t)], ["abs", "acs"], "bc") - A.np_eye(t.shape[1]) if left else spec([t, A.conj(t)], ["abs", "cbs"], "ac") - A.np_eye(t.shape[0])
    ensure_eq("ortho.deviation", A.toarr(got), A.toarr(A.norm(e)))
