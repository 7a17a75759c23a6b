"""C17: the canonical (Gamma-Lambda) form reproduces the state."""
from .base import *
from .callee import *
from .tdvp import rows, frame, ray, left_iso, right_iso
R = Registry()


def Gd(k, N, f="D"):
    k = SInt.mk(pint(k))
    if k == 0 or k == N: return 1
    return bonddim(f, k)


class CW:
    """families: G the input, A the left isometries of the first sweep (bonds D'), and for the second sweep the factors
    U, LAM at each bond (bonds D'') and the Gammas"""
    def __init__(s, N): s.N = N
    def d(s, q): return bonddim("d", SInt.mk(pint(q)))
    def G(s, q): return sym("G[%s]" % pint(q), Gd(q, s.N), Gd(SInt.mk(pint(q)) + 1, s.N), s.d(q))
    def A(s, q): return left_iso(sym("A[%s]" % pint(q), Gd(q, s.N, "D'"), Gd(SInt.mk(pint(q)) + 1, s.N, "D'"), s.d(q)), "")
    def X(s, q): return s.G(q) if q == 0 else sym("X[%s]" % pint(q), Gd(q, s.N, "D'"), Gd(SInt.mk(pint(q)) + 1, s.N), s.d(q))
    def U(s, k):
        u = sym("U[%s]" % pint(k), Gd(k, s.N, "D'"), Gd(k, s.N, "D''"))
        T.add_rule("U+U=1", T.einsum([u.v, T.conj(u.v)], [list("ak"), list("al")], list("kl")), T.eye(Gd(k, s.N, "D''"), cx=True))
        return u
    def LAM(s, k):
        l = sym("LAM[%s]" % pint(k), Gd(k, s.N, "D''"), cx=False)
        T.add_rule("|w|=1", T.einsum([l.v, l.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))
        return l
    def GAM(s, q): return sym("GAM[%s]" % pint(q), Gd(q, s.N, "D''"), Gd(SInt.mk(pint(q)) + 1, s.N, "D''"), s.d(q))
    def Y(s, q):
        """tensor at the head of the second sweep"""
        if q == s.N - 1: return s.A(q)
        return spec([s.A(q), s.U(SInt.mk(pint(q)) + 1), s.LAM(SInt.mk(pint(q)) + 1)], ["axs", "xb", "b"], "abs")


def find_lists(locs, arg):
    g = l = None
    for v, x in locs.items():
        if not isinstance(x, VList) or x is arg: continue
        if x.sym is None and list.__len__(x) == 0: continue
        e = x[0]
        if isinstance(e, Arr) and e.ndim == 3: g = x
        elif e is None: l = x
    return g, l


def splits(run):
    """callee contracts (C02) of the two decompositions; the second with nothing but zero weights cut"""
    def pt(tensor, direction, fixphase=None):
        C().ob("canonize.first-sweep-direction", bool(direction > 0), "engine")
        q, r, Z = prepareTensor(tensor, direction)
        run.r = r
        return q, r, Z

    def ptr(tensor, direction, D=None, thresh=1e-16, r_thresh=1e-14):
        C().ob("canonize.second-sweep-direction", bool(direction < 0), "engine")
        if D is not None: ensure("canonize.nothing-cut", D >= tensor.shape[0])
        C().ob("canonize.threshold", thresh is run.thresh, "engine", "another threshold is used")
        X = T.rewrite(tensor.v)
        # the norm of the decomposed tensor is one, hence so is Z
        ensure_eq("canonize.normalised", spec([Arr(X), A.conj(Arr(X))], ["abs", "abs"], ""), A.toarr(1))
        u, w, b, Z = prepareTruncate(tensor, -1, Z=A.toarr(1))

        def consequences():      # of X = U S B, U+U = 1:   S B = U+X   and   U U+ X = X
            ux = T.einsum([T.conj(u.v), X], [list("ak"), list("abs")], list("kbs"))
            T.add_rule("SB=U+X", T.einsum([w.v, b.v], [["k"], list("kbs")], list("kbs")), ux)
            if pint(w.shape[0]) == T.ONE: T.add_rule("B=SU+X", b.v, T.einsum([w.v, ux], [["k"], list("kbs")], list("kbs")))
            T.add_rule("UU+X=X", T.einsum([u.v, T.conj(u.v), X], [list("ak"), list("ck"), list("cbs")], list("abs")), X)
        if run.defer is None: consequences()
        else: run.defer.append(consequences)
        run.last = (u, w, b, Z, Arr(X))
        return u, w, b, Z
    return dict(prepareTensor=pt, prepareTruncate=ptr)


class First:
    """left-orthogonalising sweep"""
    def __init__(s, run): s.run, s.special = run, (0, run.N - 1)
    fields = ()
    def lists(s): return [x for x in (s.g, s.l) if x is not None]

    def check(s, i, locs, phase):
        run, w, N = s.run, s.run.w, s.run.N
        if phase == "init":
            s.g, s.l = find_lists(locs, run.arg)
            if s.g is None: raise Unsupported("no list of tensors")
            run.g = s.g
            k = sint("k0")
            assume(k >= 0); assume(k < N)
            ensure_eq("canonize.input", s.g[k], w.G(k))
            return
        n, g = s.index, s.g
        t = g[n]
        ensure_eq("canonize.left.isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
        frame("canonize.left", g, {n: 1, n + 1: 1} if not (n == N - 1) else {n: 1})
        if n == N - 1: ray("canonize.left.state", spec([t, run.r], ["abs", "bc"], "acs"), w.X(n))      # r is a non-zero number
        else: ray("canonize.left.state", spec([t, g[n + 1]], ["abs", "bct"], "asct"), spec([w.X(n), w.G(n + 1)], ["abs", "bct"], "asct"))

    def havoc(s, i, locs):
        run, w, N = s.run, s.run.w, s.run.N
        s.index = i

        def ten(q):
            if q == i: return w.X(q)
            return w.A(q) if q < i else w.G(q)
        rows(s.g, ten, N)
        if getattr(s, "at_exit", False): run.phase = 1
        return {}


class Second:
    """sweep of singular-value decompositions that divides the weights out"""
    def __init__(s, run): s.run, s.special = run, (run.N - 1, 0, run.N - 2)
    fields = ()
    def lists(s): return [s.g, s.l]

    def check(s, i, locs, phase):
        run, w, N = s.run, s.run.w, s.run.N
        if phase == "init":
            C().ob("canonize.order", run.phase == 1, "engine")
            s.g, s.l = find_lists(locs, run.arg)
            if s.l is None or s.g is not run.g: raise Unsupported("no list of weights")
            ensure("canonize.lambda-length", s.l.symlen() == N - 1)
            return
        n, g, l = s.index, s.g, s.l
        u, S, b, Z, X = run.last
        t = g[n]
        right = t if n == N - 1 else spec([t, w.LAM(n + 1)], ["abs", "b"], "abs")
        ensure_eq("canonize.right-absorbed-isometry", spec([right, A.conj(right)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        # (u u^+) acts as one on the range of the decomposed tensor
        ensure_eq("canonize.lemma.range", spec([u, A.conj(u), X], ["ak", "ck", "cbs"], "abs"), X)
        if not (n == N - 1):
            rest = spec([w.A(n), w.U(n + 1)], ["axs", "xb"], "abs")
            ensure_eq("canonize.lemma.form", X, spec([rest, w.LAM(n + 1)], ["abs", "b"], "abs"))
            T.add_rule("range", T.einsum([u.v, T.conj(u.v), rest.v], [list("ak"), list("ck"), list("cbs")], list("abs")), rest.v)
        if n == 0:
            left = spec([S, t], ["a", "abs"], "abs")       # S is one number of modulus one
            ensure_shape("canonize.end-number", S, (1,))
            ensure_eq("canonize.end-number", spec([S, S], ["a", "a"], ""), A.toarr(1))
            ray("canonize.right.state", spec([u, S, right], ["ax", "x", "xbs"], "abs"), w.Y(0))
            frame("canonize.right", g, {n: 1})
            frame("canonize.right.lambda", l, {})
        else:
            lam = l[n - 1]
            ensure_eq("canonize.lambda", lam, S)
            ensure_eq("canonize.lambda.norm", spec([lam, lam], ["a", "a"], ""), A.toarr(1))
            left = spec([lam, t], ["a", "abs"], "abs")
            ray("canonize.right.state", spec([g[n - 1], right], ["abs", "bct"], "asct"), spec([w.A(n - 1), w.Y(n)], ["abs", "bct"], "asct"))
            ensure_eq("canonize.right.next", g[n - 1], spec([w.A(n - 1), u, S], ["axs", "xb", "b"], "abs"))
            frame("canonize.right", g, {n: 1, n - 1: 1})
            frame("canonize.right.lambda", l, {n - 1: 1})
        ensure_eq("canonize.left-absorbed-isometry", spec([left, A.conj(left)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))

    def havoc(s, i, locs):
        run, w, N = s.run, s.run.w, s.run.N
        s.index = i
        run.last = None

        def ten(q):
            if q == i: return w.Y(q)
            return w.A(q) if q < i else w.GAM(q)
        rows(s.g, ten, N)
        rows(s.l, lambda q: w.LAM(q + 1) if q >= i else None, N - 1)
        if getattr(s, "at_exit", False): run.phase = 2
        return {}


class Run: defer = None


@R.group("canonize.open", ["mpsfunctions.canonizeMPS"], maxpaths=600)
def _():
    mf = MF()
    c = C()
    N = sint("N")
    assume(N >= 3)
    w = CW(N)
    run = Run()
    run.w, run.N, run.phase, run.thresh = w, N, 0, rscalar("tr_thresh")
    ts = VList.family(lambda q: w.G(SInt.mk(q)), N)
    kind = c.choose(2)
    if kind:
        m = mps_obj(N, VList.family(lambda q: sym("RAW[%s]" % q, Gd(SInt.mk(q), N), Gd(SInt.mk(q) + 1, N), w.d(q)), N), sint("pos"), None, cscalar("Zm"))
        m.__dict__["tolist"] = lambda: VList.family(lambda q: w.G(SInt.mk(q)), N)      # contract: list export (C07)
        arg = m
    else: arg = ts
    run.arg = arg
    before = (ts.sym, getattr(arg, "_tensors", None))

    def handler(rng, locs, lid):
        if spans(rng, 0, N, 1): return First(run)
        if spans(rng, N - 1, -1, -1): return Second(run)
        raise Unsupported("loop over an unexpected range")
    c.data["loop_handler"] = handler
    with patched(mf, **splits(run)):
        r = call("canonizeMPS", mf.canonizeMPS, arg, run.thresh)
    Gam, Lam = returned("canonizeMPS", r)
    C().ob("canonize.sweeps", run.phase == 2, "engine")
    ensure("canonize.gamma.length", Gam.symlen() == N)
    ensure("canonize.one-more-lambda", Lam.symlen() == N + 1)
    k = sint("k")
    assume(k >= 0); assume(k <= N)
    if k == 0 or k == N: ensure_eq("canonize.boundary-lambda", Lam[k], A.np_ones(1) if hasattr(A, "np_ones") else Arr(T.ones((1,))))
    else: ensure_eq("canonize.lambda-position", Lam[k], w.LAM(k))
    if k < N: ensure_eq("canonize.gamma-position", Gam[k], w.GAM(k))
    C().ob("canonize.frame", (not ts.sym["over"]) if not kind else (m._tensors is before[1] and not m._tensors.sym["over"]), "engine", "the input is modified")


@R.fallback("canonize.open", "chains of 1 to 4 sites")
def _(): bounded(1 + C().choose(4))


@R.group("canonize.open.short", ["mpsfunctions.canonizeMPS"], bounded_only=True, bound="chains of 1 and 2 sites, symbolic dimensions and entries")
def _(): bounded(1 + C().choose(2))


def bounded(N):
    mf = MF()
    m, ts = concrete_mps(N, C().choose(N + 1) if N < 3 else 1)
    run = Run()
    run.thresh = rscalar("tr_thresh")
    run.defer, outer = [], []

    def ptr(*a, **k):
        x = P["prepareTruncate"](*a, **k)
        u, w_, b, Z, X = run.last
        if outer:      # X = rest * weights with invertible weights: U U+ acts as one on rest as well
            pw = outer[-1][1]
            rest = spec([X, 1.0 / A.toarr(pw)], ["abs", "b"], "abs")
            run.defer.append(lambda: T.add_rule("range", T.einsum([u.v, T.conj(u.v), rest.v], [list("ak"), list("ck"), list("cbs")], list("abs")), rest.v))
        outer.append((u, w_))
        return x
    P = splits(run)
    kind = C().choose(2)
    want = amplitudes(m)
    arg = m if kind else VList([t for t in m.tolist()])
    snap = list(list.__iter__(arg._tensors if kind else arg))
    vers = [t.version for t in snap]
    if not kind: want = dense(snap)
    with patched(mf, prepareTensor=P["prepareTensor"], prepareTruncate=ptr):
        Gam, Lam = returned("canonizeMPS", call("canonizeMPS", mf.canonizeMPS, arg, run.thresh))
    C().ob("canonize.lengths", len(Gam) == N and len(Lam) == N + 1, "engine")
    ts_ = []
    for n in range(N):
        r = spec([Gam[n], Lam[n + 1]], ["abs", "b"], "abs")
        ensure_eq("canonize.right-absorbed-isometry", spec([r, A.conj(r)], ["abs", "cbs"], "ac"), A.np_eye(r.shape[0]))
        ensure_eq("canonize.lambda.norm", spec([Lam[n], Lam[n]], ["a", "a"], ""), A.toarr(1))
        ts_.append(r)
    ensure_eq("canonize.end-number", spec([outer[-1][1]] * 2, ["a", "a"], ""), A.toarr(1))
    ensure_eq("canonize.boundary-lambda", Lam[0], Arr(T.ones((1,))))
    u, S = outer[-1]
    ts_[0] = spec([u, S, ts_[0]], ["ab", "b", "bcs"], "acs")        # numbers of modulus one
    ts_[-1] = spec([ts_[-1], run.r], ["abs", "bc"], "acs")
    ray("canonize.state", dense(ts_), want)
    for f in run.defer: f()
    for n in range(N):
        l = spec([Lam[n] if n else outer[-1][1], Gam[n]], ["a", "abs"], "abs")
        ensure_eq("canonize.left-absorbed-isometry", spec([l, A.conj(l)], ["abs", "acs"], "bc"), A.np_eye(l.shape[1]))
    cur = list(list.__iter__(arg._tensors if kind else arg))
    C().ob("canonize.frame", all(x is y for x, y in zip(cur, snap)) and [t.version for t in snap] == vers, "engine", "the input is modified")


# ---- unit cells of infinite states -----------------------------------------------------------------------------------------
class CellW:
    """families: A the left isometries of the symmetric gauge (bonds E, lam on the cell boundary), U, LAM the factors at each bond of
    the sweep (bonds D''), GAM the Gammas"""
    def __init__(s, N):
        s.N, s.D = N, dim("D")
        assume(s.D >= 2)
        s.lam = Arr(T.symbol("lam", (s.D,), False))
        T.add_rule("|lam|=1", T.einsum([s.lam.v, s.lam.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))

    def nm(s, q):
        q = SInt.mk(pint(q))
        return "N-1" if bool(q == s.N - 1) else "0" if bool(q == 0) else pint(q)
    def b(s, k, f="E"):
        k = SInt.mk(pint(k))
        if bool(k == 0) or bool(k == s.N): return s.D
        return bonddim(f, k)
    def d(s, q): return dim("d[%s]" % s.nm(q))
    def G(s, q): return sym("G[%s]" % s.nm(q), s.b(q, "C"), s.b(SInt.mk(pint(q)) + 1, "C"), s.d(q))
    def A(s, q): return left_iso(sym("A[%s]" % s.nm(q), s.b(q), s.b(SInt.mk(pint(q)) + 1), s.d(q)), "")
    def U(s, k):
        u = sym("U[%s]" % pint(k), s.b(k), s.b(k, "D''"))
        T.add_rule("U+U=1", T.einsum([u.v, T.conj(u.v)], [list("ak"), list("al")], list("kl")), T.eye(s.b(k, "D''"), cx=True))
        return u
    def LAM(s, k):
        k = SInt.mk(pint(k))
        if bool(k == s.N): return s.lam
        l = sym("LAM[%s]" % pint(k), s.b(k, "D''"), cx=False)
        T.add_rule("|w|=1", T.einsum([l.v, l.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))
        return l
    def GAM(s, q): return sym("GAM[%s]" % s.nm(q), s.b(q, "D''"), s.b(SInt.mk(pint(q)) + 1, "D''"), s.d(q))
    def rest(s, q):
        if bool(SInt.mk(pint(q)) == s.N - 1): return s.A(q)
        return spec([s.A(q), s.U(SInt.mk(pint(q)) + 1)], ["axs", "xb"], "abs")
    def Y(s, q): return spec([s.rest(q), s.LAM(SInt.mk(pint(q)) + 1)], ["abs", "b"], "abs")

    def rho(s, k):
        """right environment of the cell with lam^2 on its boundary"""
        k = SInt.mk(pint(k))
        if bool(k == s.N) or bool(k == 0): return A.diag(s.lam * s.lam)
        return sym("rho[%s]" % pint(k), s.b(k), s.b(k))

    def weights(s, q):
        """what the invariant says about the head: U LAM^2 U+ = rho at the bond q + 1, and the definition of rho at the bond q"""
        q = SInt.mk(pint(q))
        if not bool(q == s.N - 1):
            u, l = s.U(q + 1), s.LAM(q + 1)
            T.add_rule("ULLU+=rho", T.einsum([u.v, l.v, l.v, T.conj(u.v)], [list("ak"), ["k"], ["k"], list("bk")], list("ab")), s.rho(q + 1).v)
            z = T.einsum([s.A(q).v, s.rho(q + 1).v, T.conj(s.A(q).v)], [list("abs"), list("bd"), list("cds")], list("ac"))
        else: z = T.einsum([s.A(q).v, s.lam.v, s.lam.v, T.conj(s.A(q).v)], [list("abs"), ["b"], ["b"], list("cbs")], list("ac"))
        T.add_rule("def rho", z, s.rho(q).v)
        for r in (s.rho(q), s.rho(q + 1)):      # the left isometries preserve the trace
            if not len(r.v.terms) == 1: continue
            T.add_rule("tr rho=1", T.einsum([r.v], [list("aa")], []), T.scalar(Poly.const(1)))


def aside(goal):
    """discharge the obligations on a path of their own"""
    if C().choose(2, "goal"):
        goal()
        raise PathEnd()


class CellSweep:
    """sweep of decompositions from the right end of the cell"""
    fields = ()

    def start(s):
        w, N = s.run.w, s.run.N
        k = sint("k0")
        assume(k >= 0); assume(k < N)
        k = N - 1 if bool(k == N - 1) else 0 if bool(k == 0) else k
        ensure_eq("cell.start", s.g[k], w.Y(k) if bool(k == N - 1) else w.A(k))

    def __init__(s, run): s.run, s.special = run, (run.N - 1, 0)
    def lists(s): return [s.g, s.l]

    def check(s, i, locs, phase):
        run, w, N = s.run, s.run.w, s.run.N
        if phase == "init":
            C().ob("cell.order", run.phase == 1, "engine", "decomposed before the cell is in symmetric gauge")
            s.g, s.l = run.g, None
            for v, x in locs.items():
                if isinstance(x, VList) and x is not run.g and x is not run.arg and bool(x.symlen() == N + 1): s.l = x
            if s.l is None: raise Unsupported("no list of weights")
            aside(s.start)
            ensure_eq("cell.boundary-weights", s.l[N], w.lam)
            return
        run.step(s.index, s.g, s.l)

    def havoc(s, i, locs):
        run, w, N = s.run, s.run.w, s.run.N
        s.index = i
        run.last = None

        def ten(q):
            q = SInt.mk(pint(q))
            if q == i: return w.Y(q)
            return w.A(q) if q < i else w.GAM(q)

        def lam(q):
            q = SInt.mk(pint(q))
            if bool(q == N): return w.lam
            if getattr(s, "at_exit", False): return w.lam if bool(q == 0) else w.LAM(q)
            return w.LAM(q) if q > i else None
        rows(s.g, ten, N)
        rows(s.l, lam, N + 1)
        if getattr(s, "at_exit", False): run.phase = 2
        else: w.weights(i)
        return {}


class CellRun:
    later = None

    def __init__(s, N, thresh):
        s.N, s.w, s.phase, s.thresh, s.g = N, CellW(N), 0, thresh, None
        s.maxima = []

    def regauge(s, mps, gauge, ldens=None, rdens=None, truncate=1e-16, D=None, *a, **k):
        """contract of regaugeIMPS (C18): left isometries, the same infinite state, the weights of the cell boundary, lam^2 their right fixed point"""
        w, N = s.w, s.N
        C().ob("cell.gauge", gauge == "symmetric" and s.phase == 0, "engine", "gauge %s" % gauge)
        C().ob("cell.own-copy", mps is not s.arg and mps is not getattr(s.arg, "_tensors", None), "engine", "the input itself is regauged")
        C().ob("cell.nothing-cut", truncate is s.thresh, "engine", "truncation %s" % truncate)
        def same():
            q = s.site()
            ensure_eq("cell.input", mps[q], w.G(q))
        aside(same)

        def kept():
            if isinstance(N, SInt):
                k = sint("kD")
                assume(k >= 0); assume(k <= N)
            else: k = C().choose(N + 1)
            hit = [l for tok, l in s.maxima if tok is D]
            if hit: ensure("cell.bond-dimension-kept", hit[0][k] == w.b(k, "C"))
            else: ensure("cell.bond-dimension-kept", D >= w.b(k, "C"))
        if D is not None and s.thresh > 1e-15: aside(kept)
        s.phase, s.g = 1, mps
        if isinstance(N, SInt): rows(mps, lambda q: w.A(q), N)
        else:
            for k in range(N): list.__setitem__(mps, k, w.A(k))
        return A.diag(w.lam)

    def site(s):
        if not isinstance(s.N, SInt): return 0
        q = sint("q")
        assume(q >= 0); assume(q < s.N)
        return s.N - 1 if bool(q == s.N - 1) else 0 if bool(q == 0) else q

    def maximum(s, *a):
        if len(a) == 1 and isinstance(a[0], VList):
            t = sint(C().fresh("max"))
            s.maxima.append((t, a[0]))
            return t
        return max(*a)

    def truncating(s, tensor, direction, D=None, thresh=1e-16, r_thresh=1e-14):
        """contract of prepareTruncate (C02) with nothing but zero weights cut"""
        C().ob("cell.sweep-direction", bool(direction < 0), "engine")
        if D is not None: ensure("cell.nothing-cut", D >= tensor.shape[0])
        C().ob("cell.nothing-cut", thresh <= 1e-15 or thresh is s.thresh, "engine", "weights below %s are cut" % thresh)
        X = Arr(T.rewrite(tensor.v))
        w = s.w
        ensure_eq("cell.normalised", spec([X, A.conj(X)], ["abs", "abs"], ""), A.toarr(1))
        if T.deq(pint(X.shape[0]), pint(w.D)) and T.equal(spec([X, A.conj(X)], ["abs", "cbs"], "ac").v, A.diag(w.lam * w.lam).v)[0]:
            # U S^2 U+ = lam^2 with positive lam, both in decreasing order: S = lam and the unitary U commutes with lam
            u, b, S, Z = sym("Uc", w.D, w.D), sym("Bc", *X.shape), w.lam, A.toarr(1)
            for x in (list("ak"), list("al"), list("kl")), (list("ka"), list("la"), list("kl")):
                T.add_rule("UU+=1", T.einsum([u.v, T.conj(u.v)], [x[0], x[1]], x[2]), T.eye(w.D, cx=True))
            T.add_rule("lam U=U lam", T.einsum([w.lam.v, u.v], [["a"], list("ak")], list("ak")), T.einsum([u.v, w.lam.v], [list("ak"), ["k"]], list("ak")))
            T.add_rule("BB+=1", T.einsum([b.v, T.conj(b.v)], [list("abs"), list("cbs")], list("ac")), T.eye(w.D, cx=True))
            T.add_rule("U lam B=X", T.einsum([u.v, S.v, b.v], [list("ak"), ["k"], list("kbs")], list("abs")), X.v)
            s.closing = True
        else:
            u, S, b, Z = prepareTruncate(tensor, -1, Z=A.toarr(1))
            s.closing = False

        def consequences():
            T.add_rule("SB=U+X", T.einsum([S.v, b.v], [["k"], list("kbs")], list("kbs")), T.einsum([T.conj(u.v), X.v], [list("ak"), list("abs")], list("kbs")))
            if not s.closing: T.add_rule("UU+X=X", T.einsum([u.v, T.conj(u.v), X.v], [list("ak"), list("ck"), list("cbs")], list("abs")), X.v)
        if s.later is None: consequences()
        else: s.later.append(consequences)
        s.last = (u, S, b, Z, X)
        return u, S, b, Z

    def step(s, n, g, l):
        """one decomposition at the tensor n"""
        w, N = s.w, s.N
        u, S, b, Z, X = s.last
        t = g[n]
        nxt = w.LAM(n + 1)
        right = spec([t, nxt], ["abs", "b"], "abs")
        rest = w.rest(n)
        ensure_eq("cell.lemma.form", X, spec([rest, nxt], ["abs", "b"], "abs"))
        if not s.closing: T.add_rule("range", T.einsum([u.v, T.conj(u.v), rest.v], [list("ak"), list("ck"), list("cbs")], list("abs")), rest.v)
        ensure_eq("cell.lambda", l[n], S)
        ensure_eq("cell.lambda.norm", spec([l[n], l[n]], ["a", "a"], ""), A.toarr(1))
        # the invariant U S^2 U+ = rho at the new bond: X = U S B, BB+ = 1
        ensure_eq("cell.lambda.bond", spec([X, A.conj(X)], ["abs", "cbs"], "ac"), w.rho(n))
        ensure_eq("cell.right-absorbed-isometry", spec([right, A.conj(right)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        C().ob("cell.closing-step", s.closing == bool(n == 0), "engine", "weights of the cell boundary")
        if not bool(n == 0):
            left = spec([l[n], t], ["a", "abs"], "abs")
            ensure_eq("cell.next", g[n - 1], spec([w.A(n - 1), u, S], ["axs", "xb", "b"], "abs"))
            ensure_eq("cell.state", spec([g[n - 1], right], ["abs", "bct"], "asct"), spec([w.A(n - 1), w.Y(n)], ["abs", "bct"], "asct"))
            frame("cell.tensors", g, {n: 1, n - 1: 1})
        else:
            left = spec([w.lam, t], ["a", "abs"], "abs")
            ensure_eq("cell.closed", spec([left, nxt], ["abs", "b"], "abs"), X)
            frame("cell.tensors", g, {n: 1})
        frame("cell.weights", l, {n: 1})
        ensure_eq("cell.left-absorbed-isometry", spec([left, A.conj(left)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))

    def argument(s, kind):
        w, N = s.w, s.N
        ts = VList.family(lambda q: w.G(q), N) if isinstance(N, SInt) else VList([w.G(q) for q in range(N)])
        s.ts = ts
        if kind: s.arg = mps_obj(N, ts, N, A.diag(w.lam), cscalar("Zm"), obc=False)
        else: s.arg = ts
        return s.arg

    def patches(s): return dict(regaugeIMPS=s.regauge, prepareTruncate=s.truncating, max=s.maximum, map=lambda f, l: VList.family(lambda q: f(l[SInt.mk(pint(q))]), l.symlen()) if isinstance(l, VList) and isinstance(l.symlen(), SInt) else map(f, l))

    def frame(s):
        if isinstance(s.N, SInt): ok = not s.ts.sym["over"]
        else: ok = all(x.version == 0 and T.equal(x.v, s.w.G(q).v)[0] for q, x in enumerate(list.__iter__(s.ts)))
        C().ob("cell.frame", ok and (s.arg is s.ts or s.arg._tensors is s.ts), "engine", "the input is modified")


def cellrun(N):
    k = C().choose(3, "threshold, argument")
    run = CellRun(N, 1e-10 if k == 2 else 1e-16)
    return run, run.argument(k == 1)


@R.group("canonize.cell", ["mpsfunctions.canonizeMPS"], maxpaths=900)
def _():
    mf = MF()
    c = C()
    N = sint("N")
    assume(N >= 2)
    run, arg = cellrun(N)

    def handler(rng, locs, lid):
        if not spans(rng, N - 1, -1, -1): raise Unsupported("loop over an unexpected range")
        return CellSweep(run)
    c.data["loop_handler"] = handler
    with patched(mf, **run.patches()):
        Gam, Lam = returned("canonizeMPS", call("canonizeMPS", mf.canonizeMPS, arg, run.thresh))
    w = run.w
    C().ob("cell.swept", run.phase == 2, "engine")
    ensure("cell.gamma.length", Gam.symlen() == N)
    ensure("cell.one-more-lambda", Lam.symlen() == N + 1)
    k = sint("k")
    assume(k >= 0); assume(k <= N)
    k = N if bool(k == N) else 0 if bool(k == 0) else k
    ensure_eq("cell.lambda-position", Lam[k], w.LAM(k) if not bool(k == 0) else w.lam)
    if bool(k < N): ensure_eq("cell.gamma-position", Gam[k], w.GAM(k))
    run.frame()


def short_cell(N):
    mf = MF()
    run, arg = cellrun(N)
    w = run.w
    inner = run.truncating
    n_ = [N - 1]

    def truncating(tensor, *a, **k):
        n = n_[0]
        z = T.einsum([w.A(n).v, w.rho(n + 1).v, T.conj(w.A(n).v)], [list("abs"), list("bd"), list("cds")], list("ac"))
        T.add_rule("def rho", z, w.rho(n).v)
        out = inner(tensor, *a, **k)
        u, S, b, Z, X = run.last
        if not run.closing:
            T.add_rule("ULLU+=rho", T.einsum([u.v, S.v, S.v, T.conj(u.v)], [list("ak"), ["k"], ["k"], list("bk")], list("ab")), w.rho(n).v)
            # X = rest * weights with invertible weights: U U+ acts as one on rest as well
            rest = spec([X, 1.0 / A.toarr(w.lam if n == N - 1 else run.prev)], ["abs", "b"], "abs")
            run.later.append(lambda: T.add_rule("range", T.einsum([u.v, T.conj(u.v), rest.v], [list("ak"), list("ck"), list("cbs")], list("abs")), rest.v))
        run.prev = S
        n_[0] -= 1
        return out
    run.later = []
    with patched(mf, **dict(run.patches(), prepareTruncate=truncating)):
        Gam, Lam = returned("canonizeMPS", call("canonizeMPS", mf.canonizeMPS, arg, run.thresh))
    C().ob("cell.lengths", len(Gam) == N and len(Lam) == N + 1, "engine")
    ensure_eq("cell.lambda-position", Lam[0], w.lam)
    ensure_eq("cell.lambda-position", Lam[N], w.lam)
    ts = []
    for n in range(N):
        r = spec([Gam[n], Lam[n + 1]], ["abs", "b"], "abs")
        ensure_eq("cell.right-absorbed-isometry", spec([r, A.conj(r)], ["abs", "cbs"], "ac"), A.np_eye(r.shape[0]))
        ensure_eq("cell.lambda.norm", spec([Lam[n], Lam[n]], ["a", "a"], ""), A.toarr(1))
        ts.append(r)
    old = [w.A(n) for n in range(N)]
    old[-1] = spec([old[-1], w.lam], ["abs", "b"], "abs")
    ts[0] = spec([w.lam, ts[0]], ["a", "abs"], "abs")
    ensure_eq("cell.closed", openchain(ts), openchain(old))
    for f in run.later: f()
    for n in range(N):
        l = spec([Lam[n], Gam[n]], ["a", "abs"], "abs")
        ensure_eq("cell.left-absorbed-isometry", spec([l, A.conj(l)], ["abs", "acs"], "bc"), A.np_eye(l.shape[1]))
    run.frame()


def openchain(ts):
    labs = [["b%d" % k, "b%d" % (k + 1), "s%d" % k] for k in range(len(ts))]
    return Arr(T.einsum([t.v for t in ts], labs, ["b0"] + ["s%d" % k for k in range(len(ts))] + ["b%d" % len(ts)]))


R.fallback("canonize.cell", "cells of 1 to 3 sites, symbolic dimensions and entries")(lambda: short_cell(1 + C().choose(3)))
R.group("canonize.cell.one-site", ["mpsfunctions.canonizeMPS"])(lambda: short_cell(1))


@R.group("object", ["MPS.canonize", "MPS.__canonize__"])
def _():
    mf = MF()
    c = C()
    obc = bool(c.choose(2))
    m, ts = concrete_mps(2, 1, obc=obc)
    G, L = VList([sym("g", dim("x"))]), VList([sym("l", dim("y"))])
    log = []
    kw = dict(nmaxit=sint("nmaxit"), tol=rscalar("tol"), ncv=sint("ncv"), pinv=rscalar("pinv"))

    def regauge(gauge, *a, **k):
        C().ob("object.gauge", gauge == "symmetric" and not a and all(k.get(x) is y for x, y in kw.items()), "engine", "regauged as %s with %s" % (gauge, k))
        log.append("regauge")
    m.__dict__["__regauge__"] = m.__dict__["regauge"] = regauge

    def canonize(mps, *a, **k):
        C().ob("object.whole-state", mps is m and not a and not k, "engine", "canonised something else")
        log.append("canonize")
        return G, L
    snap = {k: v for k, v in m.__dict__.items()}
    with patched(mf, canonizeMPS=canonize): call("canonize", m.canonize if c.choose(2) else m.__canonize__, **kw)
    c.ob("object.order", log == (["canonize"] if obc else ["regauge", "canonize"]), "engine", "%s" % log)
    c.ob("object.stored", m._gamma is G and m._lambda is L, "engine")
    c.ob("object.frame", all(m.__dict__[k] is v for k, v in snap.items() if k not in ("_gamma", "_lambda")) and all(t.version == 0 for t in ts), "engine", "the state is modified")
