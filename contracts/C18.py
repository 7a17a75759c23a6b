"""C18: regauging an infinite unit cell is a gauge transformation to isometric form.

Preconditions (the quantifier of the property: injective cells): the transfer operator has one dominant eigenvalue; its left and
right eigenvectors are proportional to positive matrices of full rank, whose spectra lie above the pseudo-inverse threshold.
The eigensolver is trusted to return that pair; the callers are checked against this contract and the front ends (TMeigs,
UnitcellTMeigs) against the contract of ARPACK."""
from .base import *
from .callee import *
from .tdvp import rows, frame, ray
R = Registry()


def herm(x): return A.conj(A.transpose(x, (1, 0)))


class Density:
    """positive fixed point: hermitian, unit trace; P = U w U+ with w = s*s > 0 once it has been diagonalised"""
    def __init__(s, name, D):
        s.name, s.D = name, D
        s.P = sym(name, D, D)
        T.add_rule(name + "=" + name + "+", T.conj(s.P.v), T.einsum([s.P.v], [["b", "a"]], ["a", "b"]), both=False)
        T.add_rule("tr" + name, T.einsum([s.P.v], [["a", "a"]], []), T.scalar(Poly.const(1)))
        s.spec = None
        C().data.setdefault("eigh_hooks", []).append(s.eigh)

    def eigh(s, n):
        p = s.P.v
        if len(n.terms) != 1: return None
        cf, fs = n.terms[0]
        if not (len(cf.t) == 1 and T.equal(T.scale(n, cf.inv()), p)[0]): return None
        (m, x), = cf.t.items()
        if x.b != 0 or x.a <= 0 or not all(a in C().posatoms for a, e in m): return None
        if s.spec is None:
            w, u = sym("s" + s.name, s.D, cx=False), sym("U" + s.name, s.D, s.D)
            s.spec = (w, u)
            C().data.setdefault("posvec", set()).add("s" + s.name)
            U, W, P = u.v, w.v, p
            e = T.einsum
            T.add_rule("U+U=1", e([U, T.conj(U)], [["a", "k"], ["a", "l"]], ["k", "l"]), T.eye(s.D, cx=True))
            T.add_rule("UU+=1", e([U, T.conj(U)], [["a", "k"], ["b", "k"]], ["a", "b"]), T.eye(s.D, cx=True))
            T.add_rule("UwU+=P", e([U, W, W, T.conj(U)], [["a", "k"], ["k"], ["k"], ["b", "k"]], ["a", "b"]), P)
            T.add_rule("U+P=wU+", e([T.conj(U), P], [["a", "k"], ["a", "b"]], ["k", "b"]), e([W, W, T.conj(U)], [["k"], ["k"], ["b", "k"]], ["k", "b"]), both=False)
            T.add_rule("PU=Uw", e([P, U], [["a", "b"], ["b", "k"]], ["a", "k"]), e([U, W, W], [["a", "k"], ["k"], ["k"]], ["a", "k"]), both=False)
            T.add_rule("sum w=1", e([W, W], [["k"], ["k"]], []), T.scalar(Poly.const(1)))
        w, u = s.spec
        return Arr(T.scale((w * w).v, cf)), Arr(u.v)


def svd_square(n):
    """full-rank square matrix M = W S V: unitary factors, S > 0; used in the form S V = W+ M, W S = M V+"""
    m_, k = map(pint, n.shape())
    if not core.deq(m_, k) or any(len(a) > 1 for a in n.axes): return None
    D = SInt.mk(m_)
    nm = C().fresh("svd")
    w, s, v = sym("W" + nm, D, D), sym("S" + nm, D, cx=False), sym("V" + nm, D, D)
    C().data.setdefault("posvec", set()).add("S" + nm)
    e = T.einsum
    one = T.eye(D, cx=True)
    for x, y in ((w, "W"), (v, "V")):
        T.add_rule(y + "+" + y + "=1", e([x.v, T.conj(x.v)], [["a", "k"], ["a", "l"]], ["k", "l"]), one)
        T.add_rule(y + y + "+=1", e([x.v, T.conj(x.v)], [["a", "k"], ["b", "k"]], ["a", "b"]), one)
    T.add_rule("SV=W+M", e([s.v, v.v], [["k"], ["k", "b"]], ["k", "b"]), e([T.conj(w.v), n], [["a", "k"], ["a", "b"]], ["k", "b"]))
    T.add_rule("WS=MV+", e([w.v, s.v], [["a", "k"], ["k"]], ["a", "k"]), e([n, T.conj(v.v)], [["a", "b"], ["k", "b"]], ["a", "k"]))
    C().data["svd"] = (w, s, v, Arr(n))
    C().assumptions.add("numpy.linalg.svd: A=U diag(S) V with unitary U, V and S > 0 (full-rank square argument)")
    return w, s, v


def fixed(P, t, d, out=None, f=None):
    """rule: the density P is (times f) reproduced by the transfer operator of t: direction d"""
    q = P if out is None else out
    if d > 0: lhs = T.einsum([P.v, t.v, T.conj(t.v)], [list("ac"), list("abs"), list("cds")], list("bd"))
    else: lhs = T.einsum([P.v, t.v, T.conj(t.v)], [list("bd"), list("abs"), list("cds")], list("ac"))
    r = q.v if f is None else T.scale(q.v, f)
    T.add_rule("E(P)", lhs, r, both=False)


class Single:
    """contract of TMeigs for one tensor: dominant eigenvalue eta = rho^2 and a multiple of the positive fixed point"""
    def __init__(s):
        s.D, s.d = dim("D"), dim("d")
        s.t = sym("T", s.D, s.D, s.d)
        s.rho = posreal("rho")
        s.L, s.R = Density("Pl", s.D), Density("Pr", s.D)
        eta = A.aspoly(s.rho * s.rho)
        fixed(s.L.P, s.t, 1, f=eta)
        fixed(s.R.P, s.t, -1, f=eta)
        s.calls = []
        C().data["svd_hooks"] = [svd_square]

    def scale(s, x):
        """the tensor is a multiple of the given one"""
        for f in (A.toarr(1), 1.0 / s.rho):
            if x.ndim == 3 and T.equal(x.v, (s.t * f).v)[0]: return f
        raise Unsupported("eigenvectors of another tensor")

    def TMeigs(s, tensor, direction, numeig, init=None, nmax=6000, tolerance=1e-10, ncv=100, which="LR"):
        if which not in ("LR", "LM"): raise Unsupported("which=%s" % which)
        f = s.scale(tensor)
        s.calls.append(direction)
        P = (s.L if direction > 0 else s.R).P
        k = cscalar(C().fresh("kappa"))
        return s.rho * s.rho * f * f, A.reshape(P, (s.D * s.D,)) * k, numeig

    def stubs(s): return dict(TMeigs=s.TMeigs)


def iso_left(name, t): ensure_eq(name, spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
def iso_right(name, t): ensure_eq(name, spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))


@R.group("regauge.left", ["mpsfunctions.regauge"])
def _():
    mf = MF()
    s = Single()
    with patched(mf, **s.stubs()):
        out, y = returned("regauge", call("regauge", mf.regauge, s.t, "left"))
    ensure_shape("regauge.left.shape", out, (s.D, s.D, s.d))
    iso_left("regauge.left.isometry", out)
    ensure_eq("regauge.left.gauge", spec([out, y], ["xcs", "bc"], "xbs"), spec([y, s.t], ["ax", "abs"], "xbs") / s.rho)
    ensure_eq("regauge.left.density", spec([y, A.conj(y)], ["ax", "bx"], "ab"), s.L.P)
    ensure_frame("regauge.left.frame", s.t)


@R.group("regauge.right", ["mpsfunctions.regauge"])
def _():
    mf = MF()
    s = Single()
    with patched(mf, **s.stubs()):
        out, x = returned("regauge", call("regauge", mf.regauge, s.t, "right"))
    ensure_shape("regauge.right.shape", out, (s.D, s.D, s.d))
    iso_right("regauge.right.isometry", out)
    ensure_eq("regauge.right.gauge", spec([x, out], ["ax", "xbs"], "abs"), spec([s.t, x], ["abs", "bx"], "axs") / s.rho)
    ensure_eq("regauge.right.density", spec([x, A.conj(x)], ["ax", "bx"], "ab"), s.R.P)
    ensure_frame("regauge.right.frame", s.t)


@R.group("regauge.symmetric", ["mpsfunctions.regauge"])
def _():
    mf = MF()
    s = Single()
    with patched(mf, **s.stubs()):
        gam, lam, rest = returned("regauge", call("regauge", mf.regauge, s.t, "symmetric"))
    ensure_eq("regauge.symmetric.nothing-truncated", A.toarr(rest), A.toarr(0))
    ensure_shape("regauge.symmetric.shape", gam, (s.D, s.D, s.d))
    ensure_shape("regauge.symmetric.values", lam, (s.D,))
    C().ob("regauge.symmetric.values-positive", A.posvec(lam.v), "engine", "the Schmidt values are not a positive vector: %r" % T.rewrite(lam.v))
    ensure_eq("regauge.symmetric.norm", spec([lam, lam], ["a", "a"], ""), A.toarr(1))
    B, Ct = spec([lam, gam], ["a", "abs"], "abs"), spec([gam, lam], ["abs", "b"], "abs")
    iso_left("regauge.symmetric.left", B)
    iso_right("regauge.symmetric.right", Ct)
    # gauge relation: with X = diag(lam) V x^-1, B X = X T/rho
    w, S, V, _ = C().data["svd"]
    sr, ur = s.R.spec
    invx = spec([ur, 1.0 / sr, A.conj(ur)], ["ak", "k", "bk"], "ab")
    X = spec([lam, V, invx], ["k", "ka", "ab"], "kb")
    ensure_eq("regauge.symmetric.gauge", spec([B, X], ["kls", "lb"], "kbs"), spec([X, s.t], ["ka", "abs"], "kbs") / s.rho)
    ensure_frame("regauge.symmetric.frame", s.t)


# ---- front ends of the eigensolver ------------------------------------------------------------------------------------
class NoConvergence(Exception): pass


class Values:
    """eigenvalues returned by ARPACK: the dominant one has the largest real part and the largest modulus"""
    def __init__(s, run): s.run = run
    real = property(lambda s: s)
    def __abs__(s): return s
    def __getitem__(s, m):
        if m is not s.run.best: raise Unsupported("another eigenvalue")
        return s.run.eta
    def __len__(s): return 1


class Vectors:
    def __init__(s, run): s.run = run
    def __getitem__(s, k):
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] is s.run.best): raise Unsupported("another eigenvector")
        return s.run.vec


class Arpack:
    """contract of scipy.sparse.linalg.eigs: the dominant pair of the operator handed over (exists: injective cell)"""
    def __init__(s, want, D, cx, init, fail=False):
        s.want, s.D, s.n, s.cx, s.init = want, D, D * D, cx, init
        s.eta, s.vec, s.best, s.seen, s.fail = posreal("eta"), sym("vec", D, D, cx=cx), object(), 0, fail
        s.vec = A.reshape(s.vec, (D * D,))

    def linop(s, shape, matvec=None, rmatvec=None, matmat=None, dtype=None):
        ensure("eigs.dimension", core.SBool(z3.And(zint(shape[0]) == zint(s.n), zint(shape[1]) == zint(s.n))))
        C().ob("eigs.dtype", (dtype.kind == "c") == s.cx, "engine", "operator of dtype %s" % dtype)
        return A.Namespace("LinearOperator", shape=shape, matvec=matvec, dtype=dtype)

    def eigs(s, op, k=6, which="LM", v0=None, maxiter=None, tol=0, ncv=None, **kw):
        if kw: raise Unsupported("options of eigs")
        if which not in ("LM", "LR"): raise Unsupported("which=%s" % which)
        if s.D == 1: raise VCFail("eigs.dimension-one", "ARPACK refuses one-dimensional problems")
        if s.seen == 0:
            if isinstance(s.init, Arr): ensure_eq("eigs.initial-vector", v0, s.init) if v0 is not None else C().ob("eigs.initial-vector", False, "engine")
        s.seen += 1
        if s.fail and s.seen == 1: raise NoConvergence()
        x = A.reshape(sym("probe%d" % s.seen, s.D, s.D, cx=s.cx), (s.n,))
        ensure_eq("eigs.operator", op.matvec(x), s.want(x))
        return Values(s), Vectors(s)

    def patches(s):
        np_ = world().np
        class NP:
            def __getattr__(q, k): return getattr(np_, k)
            @staticmethod
            def argmax(v):
                if isinstance(v, Values): return s.best
                raise Unsupported("argmax")
            @staticmethod
            def real(v): return v if isinstance(v, Values) else np_.real(v)
            @staticmethod
            def abs(v): return v if isinstance(v, Values) else np_.abs(v)
        spns = A.Namespace("scipy", sparse=A.Namespace("sparse", linalg=A.Namespace("linalg", eigs=s.eigs)))
        return dict(np=NP(), sp=spns, LinearOperator=s.linop, ArpackError=NoConvergence)


def bond():
    if C().choose(2, "bond dimension one"): return 1
    D = dim("D")
    assume(D >= 2)
    return D


def eigenpair(nm, ar, r, want, cx):
    if ar.D == 1:       # one number: any vector is the eigenvector
        ensure_shape(nm + ".vector", r[1], (1,))
        ensure_eq(nm + ".eigenvalue", want(r[1]), r[1] * A.toarr(r[0]))
        ensure_eq(nm + ".not-zero", spec([r[1], A.conj(r[1])], ["a", "a"], ""), A.toarr(1))
    else:
        C().ob(nm + ".solved", ar.seen >= 1, "engine")
        ensure_eq(nm + ".eigenvalue", A.toarr(r[0]), ar.eta)
        ensure_eq(nm + ".vector", r[1], ar.vec)
    C().ob(nm + ".dtype", r[1].v.cx == cx, "engine")


@R.group("TMeigs", ["mpsfunctions.TMeigs"])
def _():
    mf = MF()
    c = C()
    D, d, cx = bond(), dim("d"), bool(c.choose(2))
    t = sym("T", D, D, d, cx=cx)
    drn = [1, -1][c.choose(2)]
    init = [None, sym("init", D, D, cx=cx)][c.choose(2)]
    if init is not None: init = A.reshape(init, (D * D,))
    def want(x):
        x = A.reshape(x, (D, D))
        r = spec([x, t, A.conj(t)], ["ac", "abs", "cds"], "bd") if drn > 0 else spec([x, t, A.conj(t)], ["bd", "abs", "cds"], "ac")
        return A.reshape(r, (D * D,))
    ar = Arpack(want, D, cx, init, bool(c.choose(2, "no convergence")))
    with patched(mf, **ar.patches()):
        r = returned("TMeigs", call("TMeigs", mf.TMeigs, t, drn, 6, init, 100, 1e-10, 30))
    eigenpair("TMeigs", ar, r, want, cx)
    ensure_frame("TMeigs.frame", t)


@R.group("UnitcellTMeigs", ["mpsfunctions.UnitcellTMeigs"])
def _():
    from .C04 import cell_family, as_mps
    mf = MF()
    c = C()
    N, cx = sint("N"), bool(c.choose(2))
    assume(N >= 1)
    k = c.choose(3)
    one = [None] * 2        # cells of two tensors, one real and one complex
    if k: N = k
    if k == 2: one, cx = [cx, not cx], True
    D0 = bond()

    def b(k):
        k = SInt.mk(pint(k))
        return D0 if k == 0 or k == N else bonddim("c", k)
    fn = lambda p, cx=cx: sym("T[%s]" % p, b(SInt.mk(p)), b(SInt.mk(p) + 1), bonddim("d", SInt.mk(p)), cx=cx)
    ts = VList.family(fn, N) if k == 0 else VList([fn(pint(0))]) if k == 1 else VList([fn(pint(q), one[q]) for q in range(2)])
    m = as_mps(ts, N, b) if c.choose(2) else ts
    if m is not ts: m._dtype = A.CPLX if cx else A.FLOAT
    drn = [1, -1][c.choose(2)]
    init = A.reshape(sym("init", D0, D0, cx=cx), (D0 * D0,)) if c.choose(2) else None
    tm = sym("E", D0, D0, D0, D0, cx=cx)
    want = lambda x: A.reshape(spec([tm, A.reshape(x, (D0, D0))], ["abcd", "ab"], "cd"), (D0 * D0,))

    def uto(direction, mps, vector):
        """contract of UnitcellTransferOperator (C04)"""
        C().ob("UnitcellTMeigs.operator-arguments", mps is m and direction == drn, "engine", "transfer operator of other arguments")
        return want(vector)
    ar = Arpack(want, D0, cx, init)
    with patched(mf, UnitcellTransferOperator=uto, **ar.patches()):
        r = returned("UnitcellTMeigs", call("UnitcellTMeigs", mf.UnitcellTMeigs, m, drn, 1, init=init))
    eigenpair("UnitcellTMeigs", ar, r, want, cx)


def aside(goal):
    """discharge the obligations on a path of their own"""
    if C().choose(2, "goal"):
        goal()
        raise PathEnd()


# ---- unit cells of any length -------------------------------------------------------------------------------------------
class Run18:
    """the cell, its positive fixed points and the environments they generate, the unknown tensors produced by the sweeps"""
    def __init__(s, N):
        s.N, s.D = N, dim("c0")
        s.rho = posreal("rho")
        s.L, s.R = Density("Pl", s.D), Density("Pr", s.D)
        s.phase, s.calls, s.pt = "raw", [], None
        C().data["svd_hooks"] = [svd_square]
        if isinstance(N, SInt):
            s.eta = posreal("eta")
            C().data["roots"] = [(A.aspoly(s.eta), (N.poly * 2).inv(), A.aspoly(s.rho))]
        else:
            s.eta = posreal("eta")
            C().data["roots"] = [(A.aspoly(s.eta), Poly.const(2 * N).inv(), A.aspoly(s.rho))]
            p = A.aspoly(s.rho)
            s.eta2 = p ** (2 * N)

    def b(s, k, f="c"):
        k = SInt.mk(pint(k))
        if k == 0 or k == s.N: return s.D
        return bonddim(f, k)

    def T(s, q): return sym("T[%s]" % pint(q), s.b(q), s.b(SInt.mk(pint(q)) + 1), bonddim("d", SInt.mk(pint(q))))
    def Ts(s, q): return s.T(q) / s.rho

    def env(s, k, d):
        k = SInt.mk(pint(k))
        if k == 0 or k == s.N: return (s.L if d > 0 else s.R).P
        return sym("G%s[%s]" % ("lr"[d < 0], pint(k)), s.b(k), s.b(k))

    def unfold(s, q, d):
        q = SInt.mk(pint(q))
        P, out = (s.env(q, 1), s.env(q + 1, 1)) if d > 0 else (s.env(q + 1, -1), s.env(q, -1))
        fixed(P, s.T(q), d, out, A.aspoly(s.rho * s.rho))

    def eigs(s, mps, direction, numeig, init=None, nmax=800, tolerance=1e-12, ncv=10, which="LM"):
        """contract of UnitcellTMeigs"""
        if which not in ("LR", "LM"): raise Unsupported("which=%s" % which)
        if mps is not s.arg: raise Unsupported("eigenvectors of another cell")
        s.calls.append(direction)
        s.content()
        P = (s.L if direction > 0 else s.R).P
        k = cscalar(C().fresh("kappa"))
        return s.eta if s.phase == "raw" else A.toarr(1), A.reshape(P, (s.D * s.D,)) * k, numeig

    def content(s):
        def goal():
            k = sint(C().fresh("k"))
            assume(k >= 0); assume(k < s.N)
            want = s.T(k) if s.phase == "raw" else s.Ts(k)
            ensure_eq("regauge.eigenvectors-of-the-cell", s.arg[k], want)
        aside(goal)

    def prepare(s, tensor, direction, fixphase=None):
        """contract of prepareTensor (C02), with its consequence r = Q+X/Z"""
        X = T.rewrite(tensor.v)
        q, r, Z = prepareTensor(tensor, direction)
        z = A.aspoly(Z)
        if direction > 0: lhs, rhs = T.einsum([r.v, T.conj(r.v)], [list("xa"), list("xb")], list("ab")), T.einsum([X, T.conj(X)], [list("xas"), list("xbs")], list("ab"))
        else: lhs, rhs = T.einsum([r.v, T.conj(r.v)], [list("ax"), list("bx")], list("ab")), T.einsum([X, T.conj(X)], [list("axs"), list("bxs")], list("ab"))
        T.add_rule("r+r", lhs, T.scale(T.rewrite(rhs), (z * z).inv()))
        C().ob("regauge.sweep-direction", bool(direction > 0) == (s.d > 0), "engine", "decomposition in the wrong direction")
        s.pt = (q, r, Z)
        return q, r, Z

    def stubs(s): return dict(UnitcellTMeigs=s.eigs, prepareTensor=s.prepare)


class Scale:
    """every tensor is divided by the root of the eigenvalue"""
    fields = ()
    def __init__(s, run): s.run, s.special = run, ()
    def lists(s): return [s.run.arg]

    def spec(s, q, after): return s.run.Ts(q) if after or s.was == "scaled" else s.run.T(q)

    def check(s, i, locs, phase):
        if phase == "init":
            s.was = s.run.phase
            s.run.content()
            return
        frame("regauge.scale", s.run.arg, {s.index: 1})
        ensure_eq("regauge.scale", s.run.arg[s.index], s.run.Ts(s.index))

    def havoc(s, i, locs):
        s.index = i
        rows(s.run.arg, lambda q: s.spec(q, q < i), s.run.N)
        if getattr(s, "at_exit", False): s.run.phase = "scaled"
        return {}


class Sweep:
    """isometries behind the head; head^+ head is a multiple of the environment; neighbouring products are kept"""
    fields = ()
    def __init__(s, run, d):
        s.run, s.d = run, d
        N = run.N
        s.special = (0, N - 2) if d > 0 else (N - 1, 1)
        run.d = d
    def lists(s): return [s.run.arg]

    def iso(s, q):
        r, q = s.run, SInt.mk(pint(q))
        t = sym("A[%s]" % pint(q), r.b(q, "k"), r.b(q + 1, "k"), bonddim("d", q))
        iso3(t, s.d > 0, "")
        return t

    def sq(s, x): return spec([x, A.conj(x)], ["xas", "xbs"], "ab") if s.d > 0 else spec([x, A.conj(x)], ["axs", "bxs"], "ab")

    def head(s, q):
        r, q, d = s.run, SInt.mk(pint(q)), s.d
        if q == (0 if d > 0 else r.N - 1): return s.first
        z = posreal("z[%s]" % pint(q))
        x = sym("X[%s]" % pint(q), r.b(q, "k") if d > 0 else r.b(q), r.b(q + 1) if d > 0 else r.b(q + 1, "k"), bonddim("d", q))
        if q == (r.N - 1 if d > 0 else 0): want = A.np_eye(r.D)
        else: want = r.env(q + 1, 1) if d > 0 else r.env(q, -1)
        T.add_rule("X+X", s.sq(x).v, (want * z * z).v)
        return x

    def rest(s, q):
        r = s.run
        if q == (r.N - 1 if s.d > 0 else 0): return s.last
        return r.Ts(q)

    def check(s, i, locs, phase):
        r, d, N, g = s.run, s.d, s.run.N, s.run.arg
        e = 0 if d > 0 else N - 1
        o = N - 1 - e
        if phase == "init":
            C().ob("regauge.order", r.phase == "scaled", "engine")
            r.phase = "sweep"
            f0, fN = g[0], g[N - 1]
            s.first, s.last = g[e], g[o]
            aside(lambda: ends(r, f0, fN, d))
            def middle():
                k = sint(C().fresh("k"))
                assume(k > 0); assume(k < N - 1)
                ensure_eq("regauge.middle", g[k], r.Ts(k))
            aside(middle)
            return
        n = s.index
        q, rr, Z = r.pt
        t, nx = g[n], g[n + d]
        if d > 0: iso_left("regauge.isometry", t)
        else: iso_right("regauge.isometry", t)
        frame("regauge.sweep", g, {n: 1, n + d: 1})
        if d > 0: posray("regauge.state", spec([t, nx], ["abs", "bct"], "asct"), spec([s.head(n), s.rest(n + 1)], ["abs", "bct"], "asct"))
        else: posray("regauge.state", spec([nx, t], ["abs", "bct"], "asct"), spec([s.rest(n - 1), s.head(n)], ["abs", "bct"], "asct"))
        want = A.np_eye(r.D) if n + d == o else r.env(n + 2, 1) if d > 0 else r.env(n - 1, -1)
        posray("regauge.head", s.sq(nx), want)

    def havoc(s, i, locs):
        r, d = s.run, s.d
        s.index = i
        r.pt = None

        def ten(q):
            if q == i: return s.head(q)
            return s.iso(q) if (q < i if d > 0 else q > i) else s.rest(q)
        if not getattr(s, "at_exit", False):
            s.closing = False
            r.unfold(i + d, d)
            if i == (0 if d > 0 else r.N - 1): r.unfold(i, d)
        else: r.phase = "swept"
        rows(r.arg, ten, r.N)
        return {}


def ends(r, f0, fN, d):
    """the gauge matrix cancels across the cell boundary; the changed end tensors carry the fixed points into isometric form"""
    N = r.N
    posray("regauge.gauge", spec([fN, f0], ["abs", "bct"], "asct"), spec([r.T(N - 1), r.T(0)], ["abs", "bct"], "asct"))
    for q in (0, N - 1):
        for x in (1, -1): r.unfold(q, x)
    if d > 0:
        posray("regauge.first", spec([f0, A.conj(f0)], ["xas", "xbs"], "ab"), r.env(1, 1))
        posray("regauge.last", spec([r.env(N - 1, 1), fN, A.conj(fN)], ["ab", "axs", "bys"], "xy"), A.np_eye(r.D))
    else:
        posray("regauge.first", spec([fN, A.conj(fN)], ["axs", "bxs"], "ab"), r.env(N - 1, -1))
        posray("regauge.last", spec([r.env(1, -1), f0, A.conj(f0)], ["ab", "xas", "ybs"], "xy"), A.np_eye(r.D))
    sv = C().data.get("svd")
    if sv:      # Schmidt values: lam^2 is the right fixed point of the left-isometric cell
        w, S, V, M = sv
        two = spec([A.conj(w), M, A.conj(M), w], ["ax", "ab", "cb", "cy"], "xy")       # = S^2, from M = W S V
        posray("regauge.symmetric.last", spec([fN, S, S, A.conj(fN)], ["axs", "x", "x", "bxs"], "ab"), r.env(N - 1, -1))
        posray("regauge.symmetric.first", spec([r.env(1, -1), f0, A.conj(f0)], ["ab", "xas", "ybs"], "xy"), two)


def regauge_case(g):
    mf = MF()
    N = sint("N")
    assume(N >= 3)
    r = Run18(N)
    r.arg = arg = VList.family(lambda q: r.T(SInt.mk(q)), N)

    def handler(rng, locs, lid):
        if spans(rng, N - 1, 0, -1): return Sweep(r, -1)
        if r.phase == "scaled" and spans(rng, 0, N - 1, 1) and len(r.calls) == (2 if g == "symmetric" else 1) and not (g == "symmetric" and r.await_scale): return Sweep(r, 1)
        if not spans(rng, 0, N, 1): raise Unsupported("loop over an unexpected range")
        r.await_scale = False
        return Scale(r)
    r.await_scale = False
    C().data["loop_handler"] = handler
    old = r.eigs

    def eigs(*a, **k):
        r.await_scale = True
        return old(*a, **k)
    with patched(mf, UnitcellTMeigs=eigs, prepareTensor=r.prepare):
        lam = returned("regaugeIMPS", call("regaugeIMPS", mf.regaugeIMPS, arg, g))
    C().ob("regauge.swept", r.phase == "swept", "engine", "the cell is not brought into isometric form")
    ensure("regauge.length", arg.symlen() == N)
    o = N - 1 if g != "right" else 0
    x = arg[o]
    (iso_left if g != "right" else iso_right)("regauge.last-isometry", x)
    sw = Sweep(r, -1 if g == "right" else 1)
    sw.first = None
    posray("regauge.last-state", x, sw.head(o))
    k = sint("k")
    assume(k >= 0); assume(k < N)
    if not (k == o): ensure_eq("regauge.others", arg[k], sw.iso(k))
    if g != "symmetric": ensure_eq("regauge.bond-matrix", lam * A.np_sqrt(r.D), A.np_eye(r.D))
    else:
        ensure_shape("regauge.bond-matrix", lam, (r.D, r.D))
        posray("regauge.bond-matrix", lam, A.diag(C().data["svd"][1]))
        ensure_eq("regauge.bond-matrix-norm", spec([lam, A.conj(lam)], ["ab", "ab"], ""), A.toarr(1))


for _g in ("left", "right", "symmetric"): R.group("cell." + _g, ["mpsfunctions.regaugeIMPS"])(lambda g=_g: regauge_case(g))


def short_case(g, Ns):
    """cells of known length: the whole cell at once"""
    mf = MF()
    c = C()
    N = Ns[c.choose(len(Ns))]
    r = Run18(N)
    if c.choose(2):
        from .C04 import as_mps
        arg = as_mps(VList([r.T(q) for q in range(N)]), N, r.b)
    else: arg = VList([r.T(q) for q in range(N)])
    r.arg, r.d = arg, -1 if g == "right" else 1
    for q in range(N):
        for d in (1, -1): r.unfold(q, d)

    def eigs(mps, direction, numeig, init=None, nmax=800, tolerance=1e-12, ncv=10, which="LM"):
        if which not in ("LR", "LM"): raise Unsupported("which=%s" % which)
        ts = [mps[q] for q in range(N)]
        f = None
        for f_, e in ((A.toarr(1), r.eta), (1.0 / r.rho, A.toarr(1))):
            if all(T.equal(ts[q].v, (r.T(q) * f_).v)[0] for q in range(N)): f = e
        if f is None: raise Unsupported("eigenvectors of another cell")
        P = (r.L if direction > 0 else r.R).P
        return f, A.reshape(P, (r.D * r.D,)) * cscalar(c.fresh("kappa")), numeig
    with patched(mf, UnitcellTMeigs=eigs, prepareTensor=r.prepare):
        lam = returned("regaugeIMPS", call("regaugeIMPS", mf.regaugeIMPS, arg, g))
    new = [arg[q] for q in range(N)]
    for t in new: (iso_left if g != "right" else iso_right)("regauge.isometry", t)
    old = [r.T(q) for q in range(N)]
    for m in (1, 2): posray("regauge.gauge", cyclic(new * m), cyclic(old * m))
    if g != "symmetric":
        ensure_eq("regauge.bond-matrix", lam * A.np_sqrt(r.D), A.np_eye(r.D))
        return
    S = c.data["svd"][1]
    posray("regauge.bond-matrix", lam, A.diag(S))
    ensure_eq("regauge.bond-matrix-norm", spec([lam, A.conj(lam)], ["ab", "ab"], ""), A.toarr(1))
    w, S, V, M = c.data["svd"]
    e = spec([lam, A.conj(lam)], ["ab", "cb"], "ac")
    for t in reversed(new): e = spec([e, t, A.conj(t)], ["bd", "abs", "cds"], "ac")
    posray("regauge.right-fixed-point", e, spec([A.conj(w), M, A.conj(M), w], ["ax", "ab", "cb", "cy"], "xy"))


def cyclic(ts):
    labs = [["b%d" % k, "b%d" % ((k + 1) % len(ts)), "s%d" % k] for k in range(len(ts))]
    return Arr(T.einsum([t.v for t in ts], labs, ["s%d" % k for k in range(len(ts))]))


for _g in ("left", "right", "symmetric"):
    R.fallback("cell." + _g, "cells of 3 sites, symbolic dimensions and entries")(lambda g=_g: short_case(g, (3,)))
    R.group("cell.short." + _g, ["mpsfunctions.regaugeIMPS"], bounded_only=True, bound="cells of 1 and 2 sites, symbolic dimensions and entries")(lambda g=_g: short_case(g, (1, 2)))


# ---- states as objects -------------------------------------------------------------------------------------------------
@R.group("object", ["MPS.regauge", "MPS.__regauge__", "MPS.__absorbCenterMatrix__", "MPS.__absorbConnector__"], maxpaths=900)
def _():
    from .C19 import Cell, Regauge, closed
    mf = MF()
    cell = Cell()
    m = cell.m
    m._schmidt_thresh = 1e-16
    rg = Regauge(cell)
    gauge = ["left", "right", "symmetric"][C().choose(3)]
    nm = C().choose(2)
    kw = dict(nmaxit=sint("nmaxit"), tol=1e-7, ncv=sint("ncv"), pinv=1e-9)
    with patched(mf, regaugeIMPS=rg):
        r = call("regauge", m.regauge if nm else m.__regauge__, gauge, **kw)
    k = rg.calls[-1] if rg.calls else {}
    C().ob("object.regauged-once", len(rg.calls) == 1, "engine")
    C().ob("object.gauge", k.get("gauge") == gauge, "engine", "regauged as %s" % k.get("gauge"))
    C().ob("object.settings", k.get("ldens") is None and k.get("rdens") is None and all(k.get(x) is y or k.get(x) == y for x, y in kw.items() if not isinstance(y, SInt)), "engine", "%s" % k)
    C().ob("object.nothing-cut", k.get("truncate") == 1e-16, "engine", "truncation %s" % k.get("truncate"))
    closed("object.", cell, rg, gauge)


@R.group("object.open", ["MPS.regauge", "MPS.__regauge__"])
def _():
    mf = MF()
    N = 2 + C().choose(2)
    m, ts = concrete_mps(N, C().choose(N + 1))
    before = dict(m.__dict__)
    snap = list(list.__iter__(m._tensors))

    def no(*a, **k): C().ob("object.open.untouched", False, "engine", "an open chain is regauged")
    with patched(mf, regaugeIMPS=no):
        call("regauge", m.regauge, ["left", "right", "symmetric"][C().choose(3)])
    C().ob("object.open.untouched", all(m.__dict__[k] is v for k, v in before.items()) and all(x is y for x, y in zip(list.__iter__(m._tensors), snap)) and all(t.version == 0 for t in snap), "engine", "the open chain is modified")
