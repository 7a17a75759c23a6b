"""C14: Krylov solvers satisfy their recurrences."""
from .base import *
R = Registry()


def LZ(): return world().load("lib.Lanczos.LanczosEngine")


class Band:
    """banded matrix over (symbolic) lists: {offset: list}, times a scalar"""
    __array_ufunc__ = None
    def __init__(s, bands, coef=None): s.bands, s.coef = bands, coef
    def size(s):
        for k, v in s.bands.items(): return loader.vlen(v) + abs(k)
    @property
    def shape(s): return (s.size(), s.size())
    @property
    def dtype(s): return A.FLOAT
    def copy(s): return Band(dict(s.bands), s.coef)
    def __deepcopy__(s, m): return s
    def __add__(s, o):
        if not isinstance(o, Band) or s.coef is not None or o.coef is not None or set(s.bands) & set(o.bands): raise Unsupported("sum of banded matrices")
        if not (s.size() == o.size()): raise VCFail("diag-size", "diagonals of matrices of different size are added: %s, %s" % (s.size(), o.size()))
        return Band({**s.bands, **o.bands})
    def _scale(s, x):
        x = A.toarr(x)
        return Band(s.bands, x if s.coef is None else s.coef * x)
    __mul__ = __rmul__ = _scale
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("banded matrix: %s" % k)


def band(x, k=0):
    if isinstance(x, VList): return Band({k: x})
    return None


def conjlist(x):
    if isinstance(x, VList):
        if x.sym is None: return VList([A.conj(A.toarr(y)) for y in x])
        return VList.family(loader.lazy(lambda p: A.conj(A.toarr(x[SInt.mk(p)]))), x.symlen())
    return None


class Space:
    """the Krylov space: hermitian operator H, orthonormal vectors V[j], coefficients e[j] = V[j]+ H V[j], k[j] > 0"""
    def __init__(s, cx=True):
        s.n = dim("n")
        s.cx = cx
        s.H = sym("H", s.n, s.n, cx=cx)
        if cx: T.add_rule("H+=H", T.conj(s.H.v), T.einsum([s.H.v], [list("ba")], list("ab")), both=False)
        s.done = set()

    def V(s, j): return sym("V[%s]" % pint(j), s.n, cx=s.cx)
    def e(s, j): return rscalar("e[%s]" % pint(j))
    def k(s, j): return A.toarr(1) if _is0(j) else posreal("k[%s]" % pint(j))

    def unit(s, *js):
        """orthonormality of the listed vectors"""
        for i in js:
            for j in js:
                key = ("u", str(pint(i)), str(pint(j)))
                if key in s.done: continue
                s.done.add(key)
                same = pint(i) == pint(j)
                T.add_rule("V+V", T.einsum([T.conj(s.V(i).v), s.V(j).v], [["a"], ["a"]], []), T.scalar(Poly.const(1 if same else 0)))

    def recur(s, j, first=False):
        """H V[j] = e[j] V[j] + k[j] V[j-1] + k[j+1] V[j+1]"""
        key = ("r", str(pint(j)))
        if key in s.done: return
        s.done.add(key)
        rhs = s.e(j) * s.V(j) + s.k(j + 1) * s.V(j + 1)
        if not _is0(j): rhs = rhs + s.k(j) * s.V(j - 1)
        T.add_rule("HV", T.einsum([s.H.v, s.V(j).v], [list("ab"), ["b"]], ["a"]), rhs.v)
        T.add_rule("V+H", T.einsum([T.conj(s.V(j).v), s.H.v], [["a"], list("ab")], ["b"]), T.conj(rhs.v))

    def apply(s, x):
        s.calls.append(x)
        return spec([s.H, x], ["ab", "b"], "a")

    calls = ()


def refill(l, f, n):
    """the list now has n elements f(0)..f(n-1)"""
    list.clear(l)
    l.sym = {"fn": lambda p: f(SInt.mk(p)), "len": n, "over": [], "cache": {}}


def _is0(j): return pint(j).iszero()


class Recurrence:
    """loop invariant of the Lanczos iteration after `it` steps"""
    fields = ()
    def __init__(s, sp, eng, x0, opts):
        s.sp, s.eng, s.x0, s.opts = sp, eng, x0, opts
        s.active = False

    def names(s, locs):
        try: return locs["it"], locs["kn"], locs["epsn"], locs["xn"]
        except KeyError as e: raise Unsupported("variable %s of the iteration not found" % e)

    def check(s, locs, phase):
        it, kn, ep, xn = s.names(locs)
        vecs = s.eng._vecs
        sp = s.sp
        if phase == "init":
            C().ob("lanczos.init.empty", _is0(it) and all(not isinstance(loader.vlen(x), SInt) and loader.vlen(x) == 0 for x in (kn, ep, vecs)), "engine")
            ensure_eq("lanczos.init.start", xn, sp.V(0))
            return
        n = s.it + 1
        j = s.it
        eps = spec([A.conj(sp.V(j)), sp.H, sp.V(j)], ["a", "ab", "b"], "")

        def step():
            ensure("lanczos.counter", it == n)
            for nm, l in (("coefficients", kn), ("diagonal", ep), ("vectors", vecs)): ensure("lanczos.length-" + nm, loader.vlen(l) == n)
            ensure_eq("lanczos.vector", vecs[j], sp.V(j))
            ensure_eq("lanczos.norm", kn[j], sp.k(j))
            ensure_eq("lanczos.diagonal", ep[j], eps)
            ensure_eq("lanczos.diagonal-real", A.conj(A.toarr(ep[j])), eps)
            res = spec([sp.H, sp.V(j)], ["ab", "b"], "a") - eps * sp.V(j)
            if not _is0(j): res = res - sp.k(j) * sp.V(j - 1)
            ensure_eq("lanczos.recurrence", xn, res)

        def orthogonal():
            # the residual is orthogonal to every vector so far: the new vector extends the orthonormal basis
            q = pick(n)
            if not (pint(q) == pint(j) or pint(q) == pint(j) - 1): q = s.known(q)
            ensure_eq("lanczos.orthogonal", spec([A.conj(sp.V(q)), A.toarr(xn)], ["a", "a"], ""), A.toarr(0))

        def kept():
            if _is0(j): return
            p = pick(j)
            for nm, l, w in (("coefficients", kn, sp.k), ("diagonal", ep, sp.e), ("vectors", vecs, sp.V)): ensure_eq("lanczos.kept-" + nm, l[p], w(p))
        goals(step, orthogonal, kept)

    def known(s, q):
        """hypotheses about an earlier vector V[q], 0 <= q < it-1"""
        sp, j = s.sp, s.it
        if q + 2 == j: q = j - 2
        # V[q+1], V[q-1] are orthogonal to V[it] as well
        js = [j, j - 1, q, q + 1] + ([] if _is0(q) else [q - 1])
        sp.unit(*js)
        sp.recur(q)
        return q

    def havoc(s, locs):
        c = C()
        sp = s.sp
        s.active = True
        case = c.choose(3, "it")
        if case < 2: it = case
        else:
            it = sint("it")
            assume(it >= 2)
        s.it = it
        eng = s.eng
        assume(it < s.opts["ncv"] if case else s.opts["ncv"] >= 1)
        assume(it < sp.n)
        _, kn, ep, _ = s.names(locs)
        vecs = eng._vecs
        for l, f in ((kn, sp.k), (ep, sp.e), (vecs, sp.V)):
            if case == 2: refill(l, f, it)
            else:
                for q in range(it): l.append(f(q))
        s.ls = [kn, ep, vecs]
        s.dead = False
        if case == 0: xn = s.start
        else:
            s.dead = s.opts["scenario"] == "exhausted"
            xn = Arr((0 * sp.V(it)).v) if s.dead else sp.k(it) * sp.V(it)
            sp.unit(it, it - 1, *([it - 2] if case == 2 else []))
            if not s.dead: sp.recur(it - 1)
        sp.unit(it)
        r = {"it": it, "xn": xn}
        conv = s.opts["scenario"] == "converged" and case > 0
        if "converged" in locs: r["converged"] = conv
        s.flag = conv
        if "first" in locs:
            r["first"] = first = s.opts["scenario"] != "later" or case == 0
            if not first: r["etaold"] = sym("etaold", s.opts["numeig"], cx=False)
        s.xn = xn
        return r

    def lists(s): return s.ls


class Reorth:
    """re-orthogonalisation against vectors the new one is already orthogonal to changes nothing (exact arithmetic)"""
    at_exit = False
    def __init__(s, rec): s.rec = rec
    def var(s, locs):
        if "xn" not in locs: raise Unsupported("no vector xn in the re-orthogonalisation loop")
        return locs["xn"]
    def check(s, i, locs, phase):
        ensure_eq("reortho.%s" % phase, s.var(locs), s.rec.sp.V(s.rec.it))
    def havoc(s, i, locs):
        x = Arr(s.rec.sp.V(s.rec.it).v)
        s.own = x
        if not s.at_exit:
            s.rec.sp.unit(s.rec.it, i)
        return {"xn": x}
    def lists(s): return [s.own]


def combo(n, col, nn, cx=True): return sym("S[%s|%s]" % (pint(n), col), nn, cx=cx)


class Combination:
    """state = sum_{j<n} V[j] u[j,col], written S(n); S(0)=0, S(n+1)=S(n)+V[n] u[n,col]"""
    at_exit = False
    def __init__(s, nm, vecs, u, col, nn):
        s.full = loader.vlen(vecs)
        s.nm, s.vecs, s.u, s.col, s.nn = nm, vecs, u, col, nn
        s.var = None
    def S(s, n):
        if core.deq(pint(n), pint(s.full)):
            n = s.full
            if not isinstance(n, SInt): return sum([s.vecs[j] * s.u(j) for j in range(1, n)], s.vecs[0] * s.u(0))
        return Arr((0 * combo(n, pint(s.col), s.nn)).v) if _is0(n) else combo(n, pint(s.col), s.nn)
    def check(s, i, locs, phase):
        if phase == "init":
            c = [k for k in s.assigned if k in locs and isinstance(locs[k], Arr) and locs[k].ndim == 1]
            if len(c) != 1: raise Unsupported("accumulated vector not found")
            s.var = c[0]
            ensure_eq(s.nm + ".init", locs[s.var], s.S(0))
            return
        j = s.i
        ensure_eq(s.nm + ".term", locs[s.var], s.S(j) + s.vecs[j] * s.u(j))
    def havoc(s, i, locs):
        s.i = i
        s.own = Arr(s.S(i).v)
        return {s.var: s.own}
    def lists(s): return [s.own]


class Outer:
    at_exit = False
    def __init__(s, run): s.run = run
    def check(s, i, locs, phase):
        l = [x for x in locs.values() if isinstance(x, VList) and x is not s.run.eng._vecs]
        if phase == "init":
            emp = [k for k, x in locs.items() if isinstance(x, VList) and x.sym is None and list.__len__(x) == 0]
            if len(emp) != 1: raise Unsupported("list of states not found")
            s.var = emp[0]
            return
        x = locs[s.var]
        ensure("eigenvectors.length", loader.vlen(x) == s.i + 1)
        s.run.state(x[s.i], s.i)
    def havoc(s, i, locs):
        s.i = i
        s.run.col = i
        s.own = locs[s.var]
        refill(s.own, s.run.final, i)
        return {}
    def lists(s): return [s.own]


def hooks(mod, sp, run):
    np_ = world().np
    la = Namespace_(np_.linalg, eigh=run.eigh)
    return Namespace_(np_, linalg=la, diag=lambda x, k=0: band(x, k) if isinstance(x, VList) else A.diag(x),
                      conj=lambda x: conjlist(x) if isinstance(x, VList) else A.conj(x),
                      conjugate=lambda x: conjlist(x) if isinstance(x, VList) else A.conj(x))


class Namespace_:
    def __init__(s, base, **kw):
        s.__dict__.update(kw)
        s.__dict__["_b"] = base
    def __getattr__(s, k): return getattr(s._b, k)


class Run:
    def __init__(s, sp): s.sp, s.eig = sp, []
    def dotf(s, a, b): return spec([A.toarr(a), A.toarr(b)], ["a", "a"], "")

    def eigh(s, M):
        """M hermitian: eta ascending, columns of u eigenvectors"""
        if not isinstance(M, Band): return A.lin_eigh(M)
        if "_Heff" in s.eng.__dict__ and s.stop: s.stop()
        nm = C().fresh("eig")
        K = M.size()
        s.K = loader.vlen(s.eng._vecs)
        eta, u = sym("eta" + nm, K, cx=False), sym("u" + nm, K, K, cx=False)
        s.eig.append((M, K, eta, u))
        return eta, u

    def u(s, j): return s.eig[-1][3][j, s.col]
    def total(s, col): return combo(s.K, pint(col), s.sp.n)

    def final(s, col):
        if isinstance(s.K, SInt): return s.total(col) / posreal("|S|[%s]" % pint(col))
        u = s.eig[-1][3]
        S = A.toarr(0)
        for j in range(s.K): S = S + s.eng._vecs[j] * u[j, col] if j else s.eng._vecs[0] * u[0, col]
        return S / A.np_sqrt(s.dotf(A.conj(S), S))

    def normrule(s, col):
        at = posreal("|S|[%s]" % pint(col))
        S = s.total(col)
        T.add_rule("|S|", T.einsum([T.conj(S.v), S.v], [["a"], ["a"]], []), (at * at).v)

    def state(s, got, col):
        ensure_eq("eigenvectors.combination", got, s.final(col))


def canon(j, K):
    """one name for an index: the literal where it is known"""
    if not isinstance(K, SInt):
        for v in range(K):
            if j == v: return v
        raise PathEnd()
    for v in (0, K - 1, K - 2):
        if j == v: return v
    return j


def goals(*fs):
    """independent obligations of one state: one path each"""
    fs[C().choose(len(fs), "goal")]()
    raise PathEnd()


def pick(K):
    j = sint(C().fresh("j"))
    assume(j >= 0); assume(j < K)
    return canon(j, K)


def check_T(nm, sp, M, K):
    """the matrix is the tridiagonal projection: e on the diagonal, k[1..] beside it; one obligation per path"""
    if not isinstance(M, Band) or M.coef is not None: raise Unsupported("the projected matrix is not assembled from its diagonals")
    off = (0, 1, -1)[C().choose(3, "band")]
    C().ob(nm + ".bands", set(M.bands) == {0, 1, -1}, "engine", "bands %s" % sorted(M.bands))
    ensure(nm + ".size", M.size() == K)
    if not (K > abs(off)): return
    j = pick(K - abs(off))
    if off not in M.bands: return
    l = M.bands[off]
    ensure(nm + ".band-length", loader.vlen(l) == K - abs(off))
    x = l[j]
    if off: ensure_eq(nm + ".off-diagonal", x, sp.k(j + 1))
    else:
        eps = spec([A.conj(sp.V(j)), sp.H, sp.V(j)], ["a", "ab", "b"], "")
        ensure_eq(nm + ".diagonal", x, eps if T.equal(A.toarr(x).v, eps.v)[0] else sp.e(j))


@R.group("simulate.iteration", ["LanczosEngine.__simulate__"], maxpaths=3000)
def _(): simulate(True)


@R.group("simulate.result", ["LanczosEngine.__simulate__"])
def _(): simulate(False)


def simulate(iteration):
    c = C()
    mod = LZ()
    sp = Space()
    sp.calls = []
    run = Run(sp)
    ncv, numeig, Ndiag = sint("ncv"), sint("numeig"), sint("Ndiag")
    for x in (ncv, numeig, Ndiag): assume(x >= 1)
    assume(ncv >= numeig)
    delta, deltaEta = posreal("delta"), posreal("deltaEta")
    assume(delta < A.toarr(1))
    x0 = sym("x0", sp.n)
    nu = posreal("|x0|")
    T.add_rule("|x0|", T.einsum([T.conj(x0.v), x0.v], [["a"], ["a"]], []), (nu * nu).v)
    scenario = ["plain", "reortho", "exhausted", "converged", "later"][c.choose(5, "scenario")] if iteration else "plain"
    reortho = scenario == "reortho"
    start = x0 / nu
    T.add_rule("V0", T.einsum([x0.v], [["a"]], ["a"]), (nu * sp.V(0)).v)
    eng = mod.LanczosEngine(sp.apply, run.dotf, A.np_zeros, Ndiag, ncv, numeig, delta, deltaEta)
    run.eng = eng

    def stop():
        K = loader.vlen(eng._vecs)

        def result():
            ensure("simulate.at-most-ncv", K <= ncv)
            j = pick(K)
            ensure_eq("simulate.basis", eng._vecs[j], sp.V(j))
            ensure_frame("simulate.initial-vector-untouched", x0)
        goals(lambda: check_T("projected", sp, eng._Heff, K), result)
    run.stop = stop if iteration else None
    rec = Recurrence(sp, eng, x0, {"ncv": ncv, "numeig": numeig, "iteration": iteration, "scenario": scenario})
    rec.start = Arr(sp.V(0).v)
    c.data["while_handler"] = lambda locs, lid, names, attrs: rec
    st = {"depth": 0}

    def loops(rng, locs, lid):
        if not rec.active: return None
        if st["depth"] == 0 and not run_done(rec, locs): return Reorth(rec)
        if st["depth"] == 0:
            st["depth"] = 1
            return Outer(run)
        run.normrule(run.col)
        return Combination("eigenvectors", eng._vecs, run.u, run.col, sp.n)

    def run_done(rec, locs): return "_Heff" in eng.__dict__
    c.data["loop_handler"] = loops
    with patched(mod, np=hooks(mod, sp, run)):
        e, states, conv = call("__simulate__", eng.__simulate__, x0, reortho=reortho)
    K = loader.vlen(eng._vecs)
    ensure_frame("simulate.initial-vector-untouched", x0)
    M, _K, eta, u = run.eig[-1]
    C().ob("simulate.diagonalised", M is eng._Heff, "engine", "the returned eigenpairs are not those of the final projected matrix")
    m = loader.vlen(states)
    ensure("simulate.count", (m == numeig) if numeig <= K else (m == K))
    ensure_shape("simulate.values-shape", e, (m,))
    q = pick(m)
    ensure_eq("simulate.values", e[q], eta[q])
    ensure_eq("simulate.states", states[q], run.final(q))


@R.group("lemma.unit", ["(lemma) combinations of orthonormal vectors with the columns of a unitary matrix are orthonormal; Ritz vectors"])
def _():
    """induction step: |S(n+1)|^2 = |S(n)|^2 + |u_n|^2 with V_n orthogonal to S(n); base 0.  P projection, B basis (n x K), B+B = 1"""
    n, K = dim("n"), dim("K")
    V, S, u = sym("V", n), sym("S", n), cscalar("u")
    T.add_rule("V", T.einsum([T.conj(V.v), V.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))
    T.add_rule("VS", T.einsum([T.conj(V.v), S.v], [["a"], ["a"]], []), T.scalar(Poly()))
    X = S + V * u
    ensure_eq("lemma.unit", spec([A.conj(X), X], ["a", "a"], ""), spec([A.conj(S), S], ["a", "a"], "") + A.conj(u) * u)
    # with T = B+ H B and T u = u w: B+ (H - w) B u = 0 and the Rayleigh quotient is w
    B, H, U, w = sym("B", n, K), sym("H", n, n), sym("u1", K), rscalar("w")
    T.add_rule("Ritz", T.einsum([T.conj(B.v), H.v, B.v, U.v], [["a", "k"], ["a", "b"], ["b", "l"], ["l"]], ["k"]), (U * w).v)
    T.add_rule("B+B", T.einsum([T.conj(B.v), B.v], [["a", "k"], ["a", "l"]], ["k", "l"]), T.eye(K, cx=True))
    y = spec([B, U], ["ak", "k"], "a")
    r = spec([H, y], ["ab", "b"], "a") - w * y
    ensure_eq("lemma.ritz", spec([A.conj(B), r], ["ak", "a"], "k"), 0 * U)


class Evolved:
    """exp of a multiple of the projected matrix"""
    def __init__(s): s.calls = []
    def expm(s, M):
        if not isinstance(M, Band): raise Unsupported("expm of something else than the scaled projected matrix")
        K = M.size()
        U = sym("expT", K, K)
        s.calls.append((M, U))
        return U


@R.group("time-step", ["LanczosTimeEvolution.__doStep__", "LanczosTimeEvolution.__init__"])
def _():
    c = C()
    mod = LZ()
    sp = Space()
    sp.calls = []
    ncv = sint("ncv")
    assume(ncv >= 1)
    K = [1, 2, sint("K")][c.choose(3)]
    if isinstance(K, SInt): assume(K >= 3)
    assume(ncv >= K)
    delta = posreal("delta")
    dotf = lambda a, b: spec([A.toarr(a), A.toarr(b)], ["a", "a"], "")
    kind = c.choose(2)
    x0 = sym("x0", sp.n, cx=bool(kind))
    dt = [1j, 0.25][c.choose(2)]
    eng = mod.LanczosTimeEvolution(sp.apply, dotf, A.np_zeros, ncv=ncv, delta=delta)
    C().ob("time-step.settings", eng._ncv is ncv or eng._ncv == ncv, "engine")
    ensure_eq("time-step.tolerance", eng._delta, delta)
    ensure("time-step.numeig", eng._numeig <= eng._ncv)
    C().ob("time-step.operator", eng._matvec == sp.apply and eng._dot is dotf and eng._zeros is A.np_zeros, "engine")
    seen = []

    def simulate(initialstate, reortho=False, verbose=False):
        """contract of __simulate__: orthonormal vectors starting with the normalised state, tridiagonal projected matrix"""
        seen.append((A.toarr(initialstate), reortho))
        if isinstance(K, SInt): eng._vecs = VList.family(lambda p: sp.V(SInt.mk(p)), K)
        else: eng._vecs = VList([sp.V(q) for q in range(K)])
        eng._Heff = T_
        return None, None, None
    diag_ = VList.family(lambda p: sp.e(SInt.mk(p)), K) if isinstance(K, SInt) else VList([sp.e(q) for q in range(K)])
    off = VList.family(lambda p: sp.k(SInt.mk(p + 1)), K - 1) if isinstance(K, SInt) else VList([sp.k(q + 1) for q in range(K - 1)])
    T_ = Band({0: diag_, 1: off, -1: off})
    ev = Evolved()
    eng.__dict__["__simulate__"] = simulate

    class U_:
        eng = None
    u = lambda j: ev.calls[-1][1][j, 0]
    c.data["loop_handler"] = lambda rng, locs, lid: Combination("time-step", eng._vecs, u, 0, sp.n)
    spns = loader._Stub("scipy")
    spns.linalg = Namespace_(loader._Stub("scipy.linalg"), expm=ev.expm)
    with patched(mod, np=hooks(mod, sp, Namespace_(None, eigh=None)), sp=spns):
        y = call("__doStep__", eng.__doStep__, x0, dt)
    C().ob("time-step.one-projection", len(seen) == 1 and len(ev.calls) == 1, "engine")
    ensure_eq("time-step.start", seen[0][0], x0)
    C().ob("time-step.dtype", seen[0][0].v.cx == (bool(kind) or isinstance(dt, complex)), "engine", "the start vector is not promoted to the common type of step and state")
    M = ev.calls[-1][0]
    C().ob("time-step.matrix", M.bands is T_.bands, "engine", "not the exponential of the projected matrix")
    ensure_eq("time-step.step", M.coef if M.coef is not None else A.toarr(1), A.toarr(dt))
    want = combo(K, pint(0), sp.n) if isinstance(K, SInt) else sum([eng._vecs[j] * u(j) for j in range(1, K)], eng._vecs[0] * u(0))
    ensure_eq("time-step.combination", y, want)
    ensure_frame("time-step.initial-vector-untouched", x0)


def densediag(x, k=0):
    """np.diag of a list of known length"""
    if not isinstance(x, (VList, list)): return A.diag(x)
    n = loader.vlen(x) + abs(k)
    Z = A.np_zeros((n, n), dtype=complex)
    for j in range(n - abs(k)): Z[(j, j + k) if k >= 0 else (j - k, j)] = A.toarr(x[j])
    return Z


def unrolled():
    c = C()
    mod = LZ()
    sp = Space()
    sp.calls = []
    m = 1 + c.choose(3, "ncv")
    numeig = 1 + c.choose(min(m, 2), "numeig")
    delta, deltaEta = posreal("delta"), posreal("deltaEta")
    assume(delta < A.toarr(1))
    assume(sp.n >= m)
    x0 = sym("x0", sp.n)
    nu = posreal("|x0|")
    T.add_rule("|x0|", T.einsum([T.conj(x0.v), x0.v], [["a"], ["a"]], []), (nu * nu).v)
    T.add_rule("V0", T.einsum([x0.v], [["a"]], ["a"]), (nu * sp.V(0)).v)
    sp.unit(*range(m + 1))
    for j in range(m): sp.recur(j)
    run = Run(sp)
    reortho = bool(c.choose(2, "reortho"))
    norm_ = lambda x: Arr(T.rewrite(A.toarr(x).v))
    eng = mod.LanczosEngine(lambda x: norm_(sp.apply(norm_(x))), lambda a, b: norm_(run.dotf(norm_(a), norm_(b))), A.np_zeros, 7, m, numeig, delta, deltaEta)
    eig = []

    def eigh(M):
        K = M.shape[0]
        eta, u = sym(C().fresh("eta"), K, cx=False), sym(C().fresh("u"), K, K, cx=False)
        eig.append((M, eta, u))
        return eta, u
    np_ = world().np
    hk = Namespace_(np_, linalg=Namespace_(np_.linalg, eigh=eigh), diag=densediag, conj=lambda x: conjlist(x) if isinstance(x, VList) else A.conj(x))
    with patched(mod, np=hk):
        e, states, conv = call("__simulate__", eng.__simulate__, x0, reortho=reortho)
    ensure_frame("unrolled.initial-vector-untouched", x0)
    K = loader.vlen(eng._vecs)
    C().ob("unrolled.at-most-ncv", 1 <= K <= m, "engine")
    ensure_shape("unrolled.projected", eng._Heff, (K, K))
    for i in range(K):
        ensure_eq("unrolled.basis", eng._vecs[i], sp.V(i))
        for j in range(K):
            want = sp.e(i) if i == j else sp.k(max(i, j)) if abs(i - j) == 1 else A.toarr(0)
            ensure_eq("unrolled.projected", eng._Heff[i, j], want)
    M, eta, u = eig[-1]
    C().ob("unrolled.count", loader.vlen(states) == min(numeig, K) == e.shape[0], "engine")
    for q in range(min(numeig, K)):
        ensure_eq("unrolled.values", e[q], eta[q])
        S = sum([eng._vecs[j] * u[j, q] for j in range(1, K)], eng._vecs[0] * u[0, q])
        ensure_eq("unrolled.states", states[q], S / A.np_sqrt(run.dotf(A.conj(S), S)))


for _g in ("simulate.iteration", "simulate.result"): R.fallback(_g, "up to 3 Krylov vectors, no eigenvalue test")(unrolled)
