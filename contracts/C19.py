"""C19: truncation keeps the dominant Schmidt components within the requested limit."""
from .base import *
from .callee import *
from .C01 import _same
from .tdvp import rows, frame, left_iso, right_iso
R = Registry()


def truncated(run):
    """contract of prepareTruncate with limits (C02): out isometric, weights normalised, number kept within D; deterministic"""
    memo = []

    def f(tensor, direction, D=None, thresh=1e-32, r_thresh=1e-14):
        if not (direction != 0): raise VCFail("prepareTruncate.pre", "direction 0")
        a, b, s = tensor.shape
        X = T.rewrite(A.toarr(tensor).v)
        right = bool(direction > 0)
        key = (right, id(D) if not isinstance(D, (SInt, int)) else str(D), str(thresh))
        for k, x, out in memo:
            if k == key and len(x.axes) == len(X.axes) and T.equal(x, X)[0]:
                run.calls.append((Arr(X), right, D, thresh, out))
                return out
        K = dim(C().fresh("K"))
        if D is not None: assume(core.SBool(zint(K) <= (zint(D) if isinstance(D, SInt) else int(D))))
        A_, B_, S_ = A._full(X)
        nm = C().fresh("tr")
        w = Arr(T.symbol("w" + nm, (K,), False))
        if right:
            q = Arr(A.group(T.symbol("U" + nm, A_ + (K,) + S_, X.cx), [len(A_), 1, len(S_)]))
            v = Arr(A.group(T.symbol("V" + nm, (K,) + B_, X.cx), [1, len(B_)]))
            iso3(q, True, nm)
            T.add_rule("VV+=1", T.einsum([v.v, T.conj(v.v)], [list("ka"), list("la")], list("kl")), T.eye(K, cx=True))
        else:
            q = Arr(A.group(T.symbol("V" + nm, (K,) + B_ + S_, X.cx), [1, len(B_), len(S_)]))
            v = Arr(A.group(T.symbol("U" + nm, A_ + (K,), X.cx), [len(A_), 1]))
            iso3(q, False, nm)
            T.add_rule("U+U=1", T.einsum([v.v, T.conj(v.v)], [list("ak"), list("al")], list("kl")), T.eye(K, cx=True))
        T.add_rule("|w|=1", T.einsum([w.v, w.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))
        Z = posfactor()
        out = (q, w, v, Z) if right else (v, w, q, Z)
        memo.append((key, X, out))
        run.calls.append((Arr(X), right, D, thresh, out))
        return out
    return f


class Run:
    def __init__(s): s.calls = []


def parts(call_):
    """(isometry, centre matrix left behind) of a decomposition"""
    X, right, D, thresh, out = call_
    if right: return out[0], spec([out[1], out[2]], ["a", "ab"], "ab")
    return out[2], spec([out[0], out[1]], ["ab", "b"], "ab")


class Trunc:
    """invariant of a truncating centre move: the processed tensors are isometries with bonds within the limit, the tensors
    not yet reached are the original ones, and every decomposed tensor is the original one with the centre matrix absorbed,
    so that (the other side being isometric) its singular values are the Schmidt values of the current state at that bond"""
    fields = ("_Z", "_mat", "_tensors")
    def __init__(s, run, m, right, N, p, b, M0, Z0, orig, D, thr):
        s.run, s.m, s.right, s.N, s.p, s.b, s.M0, s.Z0, s.orig, s.D, s.thr = run, m, right, N, p, b, M0, Z0, orig, D, thr
        s.form, s.at_exit = None, False
    def lists(s): return [s.m._tensors]
    def cut(s, i): return i if s.right else i + 1
    def site(s, c): return c if s.right else c - 1

    def inner(s, n): return dim("D'[%s]" % pint(n))

    def absorbed(s, M, t): return spec([M, t], ["ab", "bcs"], "acs") if s.right else spec([t, M], ["abs", "bc"], "acs")

    def check(s, i, locs, phase):
        m, c = s.m, s.cut(i)
        if phase == "init":
            k = s.site(c)
            X = m._tensors[k]
            s.form = "absorbed" if _same(X, s.absorbed(s.M0, s.orig[k])) else "separate" if _same(X, s.orig[k]) and _same(A.toarr(m._mat), s.M0) else None
            if s.form is None: raise Unsupported("tensor at the centre is neither the original nor has the centre matrix absorbed")
            ensure_eq("truncating.init.norm-factor", m._Z, s.Z0)
            return
        n = s.index
        if len(s.run.calls) != 1: raise VCFail("truncating.one-decomposition", "%d decompositions in one step" % len(s.run.calls))
        X, right, D, thresh, out = s.run.calls[0]
        iso, mat = parts(s.run.calls[0])
        nm = "truncating.%s." % ("right" if s.right else "left")
        C().ob(nm + "direction", right == s.right, "engine")
        limits(nm, D, thresh, s.D, s.thr)
        ensure_eq(nm + "decomposed-tensor", X, s.start)
        ensure_eq(nm + "isometry-stored", m._tensors[n], iso)
        ensure_eq(nm + "norm-factor", m._Z, A.toarr(s.zin) * A.toarr(out[3]))
        last = not (c < s.b) if s.right else not (c > s.b)
        k = s.site(c)
        if s.form == "absorbed" and not last:
            ensure_eq(nm + "centre-absorbed", m._tensors[k], s.absorbed(mat, s.orig[k]))
            frame(nm + "tensors", m._tensors, [n, k])
        else:
            ensure_eq(nm + "centre", m._mat, mat)
            frame(nm + "tensors", m._tensors, [n])
        bound = iso.shape[1] if s.right else iso.shape[0]
        if s.D is not None: ensure(nm + "within-limit", bound <= s.D)

    def havoc(s, i, locs):
        m, c = s.m, s.cut(i)
        s.index = i
        s.run.calls[:] = []
        m._Z = s.zin = s.Z0 * posreal(C().fresh("zeta"))
        k = s.site(c)
        first = c == s.p
        if first: mat = sym("M0", dim("Dl"), bonddim("D", c)) if s.right else sym("M0", bonddim("D", c), dim("Dr"))     # c = p
        else:
            mat = sym("M[%s]" % pint(c), s.inner(c), bonddim("D", c)) if s.right else sym("M[%s]" % pint(c), bonddim("D", c), s.inner(c))
            if s.D is not None: assume(s.inner(c) <= s.D)
        s.mat = mat
        ab = s.form == "absorbed" and not s.at_exit
        if not s.at_exit: s.start = s.absorbed(mat, s.orig[k])
        m._mat = Poison("self._mat") if ab else mat
        base = s.orig
        start = s.start if ab else None

        def fn(q):
            done = (q >= s.p and q < c) if s.right else (q >= c and q < s.p)
            if done: return s.done(q)
            if ab and q == k: return start
            return base[q]
        rows(m._tensors, fn, s.N)
        return {}

    def done(s, q):
        l = s.M0.shape[0] if q == s.p and s.right else s.inner(q)
        r = s.M0.shape[1] if q + 1 == s.p and not s.right else s.inner(q + 1)
        if s.D is not None:
            for x in ((r,) if s.right else (l,)): assume(x <= s.D)
        return iso_(sym("A'[%s]" % pint(q), l, r, bonddim("d", q)), s.right)


def iso_(t, left):
    iso3(t, left, "")
    return t


def limits(nm, D, thresh, wantD, wantT):
    if wantD is None: C().ob(nm + "limit-passed", D is None, "engine", "a limit on the bond dimension is imposed")
    elif D is None: C().ob(nm + "limit-passed", False, "engine", "the limit on the bond dimension is not passed on")
    else: ensure(nm + "limit-passed", core.SBool(zint(D) == zint(wantD)))
    ensure_eq(nm + "threshold-passed", A.toarr(thresh), A.toarr(wantT))


def moving(right):
    mf = MF()
    c = C()
    N, p, b = sint("N"), sint("pos"), sint("bond")
    assume(N >= 1); assume(p >= 0); assume(p <= N); assume(b >= 0); assume(b <= N)
    assume(b > p if right else b < p)
    orig = site_family("T", N)
    M0 = sym("M0", dim("Dl"), bonddim("D", p)) if right else sym("M0", bonddim("D", p), dim("Dr"))
    Z0 = cscalar("Z0")
    m = mps_obj(N, VList.family(lambda q: orig[SInt.mk(q)], N), p, M0, Z0)
    run = Run()
    which = c.choose(3)
    D = None
    thr = m._schmidt_thresh
    kw = {}
    if which != 1:
        D = sint("D")
        assume(D >= 1)
        kw["D"] = D
    if which != 0:
        kw["schmidt_thresh"] = thr = 1e-3      # any value above the floor is treated alike: the code compares it with constants only
    inv = Trunc(run, m, right, N, p, b, M0, Z0, orig, D, thr)
    c.data["loop_handler"] = lambda rng, locs, lid: inv
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=truncated(run)):
        call("position", m.position, b, **kw)
    nm = "truncating.%s." % ("right" if right else "left")
    ensure(nm + "position", m._position == b)
    if inv.form is None: raise Unsupported("no loop over the chain found")
    ensure_eq(nm + "centre-at-exit", m._mat, inv.mat)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    if (j < p or j >= b) if right else (j < b or j >= p):
        C().ob(nm + "outside-untouched", _same(m._tensors[j], orig[j]), "tensor")
    else:
        t = m._tensors[j]
        e = spec([t, A.conj(t)], ["abs", "acs"], "bc") if right else spec([t, A.conj(t)], ["abs", "cbs"], "ac")
        ensure_eq(nm + "isometry", e, A.np_eye(t.shape[1] if right else t.shape[0]))
        if D is not None: ensure(nm + "bond-within-limit", (t.shape[1] if right else t.shape[0]) <= D)


def moving_bounded(right):
    mf = MF()
    c = C()
    N = 1 + c.choose(3, "N")
    p = c.choose(N + 1, "pos")
    b = c.choose(N + 1, "bond")
    if (b <= p) == right or b == p: return
    m, ts = concrete_mps(N, p)
    run = Run()
    D = sint("D")
    assume(D >= 1)
    f = truncated(run)
    mat, Z, out = m._mat, A.toarr(m._Z), list(ts)
    for n in (range(p, b) if right else range(p - 1, b - 1, -1)):
        X = spec([mat, ts[n]], ["ab", "bcs"], "acs") if right else spec([ts[n], mat], ["abs", "bc"], "acs")
        r = f(X, 1 if right else -1, D, m._schmidt_thresh)
        iso, mat = parts(run.calls[-1])
        out[n] = iso
        Z = Z * A.toarr(r[3])
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=f):
        call("position", m.position, b, D=D)
    ensure("truncating.bounded.position", m._position == b)
    ensure_eq("truncating.bounded.norm-factor", m._Z, Z)
    ensure_eq("truncating.bounded.centre", m._mat, mat)
    for k in range(N): ensure_eq("truncating.bounded.tensor", m._tensors[k], out[k])


for _r in (True, False):
    _n = "position-truncating." + ("right" if _r else "left")
    R.group(_n, ["MPS.position", "MPS.__position__"])(lambda r=_r: moving(r))
    R.fallback(_n, "chains of 1 to 3 sites, limit on the bond dimension")(lambda r=_r: moving_bounded(r))


@R.group("lemma.schmidt", ["(lemma) with isometries on both sides the decomposed tensor carries the Schmidt values of the state"])
def _():
    """M = L X R, L+L = 1, RR+ = 1:  M M+ = L XX+ L+ and, for the leading left factors u of X (u+u = 1), |(Lu)+ M| = |u+X|"""
    P, Q, a, b, s, K = dim("P"), dim("Q"), dim("a"), dim("b"), dim("s"), dim("K")
    L, X, B, u = sym("L", P, a), sym("X", a, b), sym("Rt", b, Q), sym("u", a, K)
    T.add_rule("L", T.einsum([L.v, T.conj(L.v)], [list("pa"), list("pb")], list("ab")), T.eye(a, cx=True))
    T.add_rule("R", T.einsum([B.v, T.conj(B.v)], [list("aq"), list("bq")], list("ab")), T.eye(b, cx=True))
    M = spec([L, X, B], ["pa", "ab", "bq"], "pq")
    ensure_eq("lemma.gram", spec([M, A.conj(M)], ["pq", "rq"], "pr"), spec([L, X, A.conj(X), A.conj(L)], ["pa", "ab", "cb", "rc"], "pr"))
    k = spec([A.conj(L), A.conj(u), M], ["pa", "ak", "pq"], "kq")
    ux = spec([A.conj(u), X], ["ak", "ab"], "kb")
    ensure_eq("lemma.kept-weight", spec([k, A.conj(k)], ["kq", "kq"], ""), spec([ux, A.conj(ux)], ["kb", "kb"], ""))


# ---- MPS.truncate on an open chain --------------------------------------------------------------------------------------
class Moves:
    """ghost state: the moves of the centre so far; contract of MPS.__position__ (C01, position-truncating)"""
    def __init__(s, m, N): s.m, s.N, s.log = m, N, []

    def __call__(s, bond, schmidt_thresh=1e-16, D=None, r_thresh=1e-14):
        if not (bond >= 0) or not (bond <= s.N): raise VCFail("position.pre", "bond outside the chain")
        cuts = D is not None or not (A.toarr(schmidt_thresh).v is None) and bool(schmidt_thresh > 1e-15)
        s.log.append((s.m._position, bond, D, schmidt_thresh, cuts))
        s.m._position = bond

    def side(s, k, upto):
        """orientation of tensor k after the first moves: 'L', 'R' or None when the centre never passed it"""
        r = None
        for a, b, D, t, cuts in s.log[:upto]:
            if k >= a and k < b: r = "L"
            elif k >= b and k < a: r = "R"
        return r


@R.group("truncate.open", ["MPS.truncate", "MPS.__truncate__"])
def _():
    c = C()
    N, p = sint("N"), sint("pos")
    assume(N >= 1); assume(p >= 0); assume(p <= N)
    orig = site_family("T", N)
    M0, Z0 = sym("M0", bonddim("D", p), bonddim("D", p)), cscalar("Z0")
    m = mps_obj(N, VList.family(lambda q: orig[SInt.mk(q)], N), p, M0, Z0)
    mv = Moves(m, N)
    m.__dict__["__position__"] = m.__dict__["position"] = mv
    D = None
    thr = [1e-16, 1e-15, 1e-14, 0.25][c.choose(4)]
    if c.choose(2):
        D = sint("D")
        assume(D >= 1)
    gauge = ["left", None][c.choose(2)]
    call("truncate", m.truncate, thr, D, gauge)
    k = sint("k")
    assume(k >= 0); assume(k < N)
    if not mv.log:
        # nothing done: the state is as it was and within the limits
        ensure("truncate.skip.threshold", thr <= 1e-15)
        C().ob("truncate.skip.untouched", not m._tensors.sym["over"] and _same(m._mat, M0), "engine")
        for x, lst in c.data.get("maxima", []):
            e = lst[k]
            if isinstance(e, (SInt, int)): assume(x >= e)
        if D is not None:
            for i in (0, 1): ensure("truncate.skip.within-limit", m._tensors[k].shape[i] <= D)
        return
    cutting = [i for i, x in enumerate(mv.log) if x[4]]
    need = D is not None or thr > 1e-15
    if need: C().ob("truncate.limits-applied", bool(cutting), "engine", "no move of the centre applies the limits")
    covered = False
    for i in cutting:
        a, b, d, t, _c = mv.log[i]
        limits("truncate.", d, t, D, thr)
        # the tensors on the other side of every bond passed are isometries: the singular values are Schmidt values
        moved_left = bool(b < a)
        if (k < a) if moved_left else (k >= a):
            got = mv.side(k, i)
            C().ob("truncate.canonical-before-cutting", got == ("L" if moved_left else "R"), "engine", "the far side is not in canonical form when truncating from %s to %s" % (a, b))
        else:
            got = mv.side(k, i)
            C().ob("truncate.canonical-before-cutting", got == ("R" if moved_left else "L"), "engine", "the near side is not in canonical form when truncating from %s to %s" % (a, b))
        if (k >= b and k < a) if moved_left else (k >= a and k < b): covered = True
    if need: C().ob("truncate.every-bond-visited", covered, "engine", "the truncating sweep does not pass every tensor")
    final = mv.side(k, len(mv.log))
    C().ob("truncate.canonical", final == ("L" if k < m._position else "R"), "engine", "the returned state is not in canonical form")
    C().ob("truncate.frame", not m._tensors.sym["over"] and _same(m._mat, M0), "engine", "tensors are changed outside the moves of the centre")


# ---- infinite states ----------------------------------------------------------------------------------------------------
class Cell:
    """a unit cell with centre matrix and connector: the cell is T0..T(p-1) mat Tp..T(N-1) connector, closed periodically"""
    def __init__(s):
        N, p = s.N, s.p = sint("N"), sint("pos")
        assume(N >= 1); assume(p >= 0); assume(p <= N)
        s.atN = bool(p == N)
        s.at0 = bool(p == 0)
        s.pos = 0 if s.at0 else p
        if s.atN: s.M0, s.K0 = sym("M0", s.b(N), dim("E")), sym("K0", dim("E"), s.b(0))
        else:
            s.M0 = sym("M0", dim("E"), s.b(s.pos))
            s.K0 = sym("K0", s.b(N), dim("E") if s.at0 else s.b(0))
        s.m = mps_obj(N, VList.family(lambda q: s.ten(SInt.mk(pint(q))), N), p, s.M0, cscalar("Z0"), obc=False)
        s.m._connector = s.K0

    def canon(s, q, cands):
        """one name for equal indices"""
        for x in cands:
            if q == x: return x
        return q

    def b(s, k): return bonddim("D", s.canon(k, (0, s.N, s.pos)))

    def ten(s, q):
        """tensor q; left of the centre matrix the bond is E"""
        q = s.canon(q, (0, s.N - 1, s.pos) if not s.atN else (0, s.N - 1))
        r = dim("E") if not s.atN and not s.at0 and q + 1 == s.pos else s.b(q + 1)
        return sym("T[%s]" % pint(q), s.b(q), r, bonddim("d", q))

    def absorbed(s, q):
        """tensor q with centre matrix and connector absorbed"""
        t = s.ten(q)
        if s.atN: return spec([t, s.M0, s.K0], ["abs", "bc", "cd"], "ads") if q == s.N - 1 else t
        if q == s.pos: t = spec([s.M0, t], ["ab", "bcs"], "acs")
        if q == 0: t = spec([s.K0, t], ["ab", "bcs"], "acs")
        return t


class Regauge:
    """contract of mpsfunctions.regaugeIMPS as seen by the object methods (C18): the list is replaced by a gauge-equivalent
    one and a diagonal matrix is returned"""
    def __init__(s, cell): s.cell, s.calls = cell, []

    def __call__(s, mps, gauge, ldens=None, rdens=None, truncate=1e-16, D=None, nmaxit=100000, tol=1e-10, ncv=20, pinv=1e-12, thresh=1e-10, *a, **k):
        cell = s.cell
        q = sint("q")
        assume(q >= 0); assume(q < cell.N)
        C().ob("cell.list-regauged", mps is cell.m._tensors, "engine", "another list than the tensors of the state is regauged")
        if not s.calls: ensure_eq("cell.everything-absorbed", mps[q], cell.absorbed(q))
        s.calls.append(dict(gauge=gauge, D=D, truncate=truncate, ldens=ldens, rdens=rdens, nmaxit=nmaxit, tol=tol, ncv=ncv, pinv=pinv))
        K = dim(C().fresh("Kg"))
        nm = C().fresh("g")
        s.w = Arr(T.symbol("w" + nm, (K,), False))
        s.ten = lambda q: sym("G%s[%s]" % (nm, pint(q)), K if q == 0 else bonddim("D" + nm, q), K if q + 1 == cell.N else bonddim("D" + nm, q + 1), bonddim("d", q))
        rows(mps, s.ten, cell.N)
        return A.diag(s.w)


def closed(nm, cell, rg, gauge):
    """the state returned: the regauged cell with the bond matrix in the centre and its inverse as connector"""
    m = cell.m
    W = A.diag(rg.w)
    ensure_eq(nm + "bond-matrix", m._mat, W)
    ensure_eq(nm + "connector-inverse", spec([A.toarr(m._mat), A.toarr(m._connector)], ["ab", "bc"], "ac"), A.np_eye(rg.w.shape[0]))
    ensure(nm + "position", m._position == (cell.N if gauge != "right" else 0))
    C().ob(nm + "frame", not m._tensors.sym["over"], "engine", "tensors are changed after the regauging")


@R.group("truncate.periodic", ["MPS.truncate", "MPS.__truncate__", "MPS.__absorbCenterMatrix__", "MPS.__absorbConnector__"], maxpaths=900)
def _():
    mf = MF()
    c = C()
    cell = Cell()
    m = cell.m
    rg = Regauge(cell)
    again = []
    m.__dict__["__regauge__"] = m.__dict__["regauge"] = lambda gauge, *a, **k: again.append((gauge, m._position, m._mat, m._connector))
    thr, lim, gauge = [(1e-16, 0, None), (1e-3, 0, "left"), (1e-16, 1, "right"), (1e-3, 1, "symmetric"), (1e-16, 1, None)][c.choose(5)]
    D = None
    if lim:
        D = sint("Dlim")
        assume(D >= 1)
    with patched(mf, regaugeIMPS=rg):
        call("truncate", m.truncate, thr, D, gauge)
    if not rg.calls:
        ensure("truncate.periodic.skip.threshold", thr <= 1e-15)
        k = sint("k")
        assume(k >= 0); assume(k < cell.N)
        for x, lst in c.data.get("maxima", []):
            e = lst[k]
            if isinstance(e, (SInt, int)): assume(x >= e)
        C().ob("truncate.periodic.skip.untouched", not m._tensors.sym["over"] and _same(m._mat, cell.M0) and _same(m._connector, cell.K0), "engine")
        if D is None: C().ob("truncate.periodic.skip.limit", False, "engine", "nothing is done although no limit is given")
        else:
            for i in (0, 1): ensure("truncate.periodic.skip.within-limit", m._tensors[k].shape[i] <= D)
        return
    a = rg.calls[0]
    C().ob("truncate.periodic.one-regauging", len(rg.calls) == 1, "engine")
    C().ob("truncate.periodic.gauge", a["gauge"] == "symmetric", "engine")
    C().ob("truncate.periodic.densities", a["ldens"] is None and a["rdens"] is None, "engine")
    limits("truncate.periodic.", a["D"], a["truncate"], D, thr)
    closed("truncate.periodic.", cell, rg, "symmetric")
    if gauge is None: C().ob("truncate.periodic.returned-gauge", not again, "engine")
    else:
        C().ob("truncate.periodic.returned-gauge", len(again) == 1 and again[0][0] == gauge, "engine", "the requested gauge is not restored")
        if again:
            ensure("truncate.periodic.regauged-when-complete", again[0][1] == cell.N)
            C().ob("truncate.periodic.regauged-with-inverse-connector", _same(again[0][2], m._mat) and _same(again[0][3], m._connector), "engine")


def over(lo, hi, step, inv):
    def handler(rng, locs, lid):
        if not spans(rng, lo, hi, step): raise Unsupported("loop over an unexpected range")
        return inv()
    return handler


# ---- lists of tensors ---------------------------------------------------------------------------------------------------
LEARNED = {}      # which locals hold the remainder at the end of the body (found while checking the body, used at the exit)


class Ortho:
    """invariant of the right-orthogonalising sweep over a list: tensors right of the current one are right isometries, the
    current one times the factor Z represents the rest (ray), those to the left are the original ones"""
    fields = ()
    def __init__(s, run, N): s.run, s.special = run, (N - 1, 0)
    def lists(s): return [s.run.arg]

    def check(s, i, locs, phase):
        run, w, N, g = s.run, s.run.w, s.run.N, s.run.arg
        if phase == "init":
            k = sint("k0")
            assume(k >= 0); assume(k < N)
            ensure_eq("ortho.input", g[k], w.G(k))
            return
        n = s.index
        t = g[n]
        if len(run.rs) != 1: raise VCFail("ortho.one-decomposition", "%d decompositions in one step" % len(run.rs))
        x, d, q, r = run.rs[0]
        C().ob("ortho.direction", d < 0, "engine")
        ensure_eq("ortho.decomposed", x, w.X(n))
        ensure_eq("ortho.isometry", t, q)
        if n == 0: frame("ortho.list", g, [n])
        else:
            ensure_eq("ortho.absorbed", g[n - 1], spec([w.G(n - 1), r], ["abs", "bc"], "acs"))
            frame("ortho.list", g, [n, n - 1])
        Z = [A.toarr(locs[v]) for v in s.zs]
        rv = [v for v in sorted(s.assigned) if v in locs and isinstance(locs[v], Arr) and locs[v].ndim == 2 and T.equal(locs[v].v, r.v)[0]]
        R_ = [A.toarr(locs[v]) for v in rv]
        if LEARNED.setdefault("r", rv) != rv: raise Unsupported("the remainder is kept in different variables")
        if len(Z) != 1 or not R_: raise Unsupported("no single accumulated norm and remainder among the locals")
        ensure_eq("ortho.state", spec([R_[0], t, w.SB(n + 1)], ["ab", "bcs", "cP"], "asP") * Z[0], spec([w.G(n), w.SG(n + 1)], ["abs", "bP"], "asP"))

    def havoc(s, i, locs):
        run, w, N = s.run, s.run.w, s.run.N
        s.index = i
        run.rs[:] = []

        def ten(q):
            if q == i: return w.X(q)
            return w.B(q) if q > i else w.G(q)
        rows(run.arg, ten, N)
        s.zs = [v for v, x in locs.items() if v in s.assigned and (isinstance(x, Arr) and x.ndim == 0 or isinstance(x, (int, float)) and not isinstance(x, bool))]
        out = {}
        Z = A.toarr(1) if i == N - 1 else posreal(C().fresh("Zacc"))
        for v in s.zs: out[v] = Z
        if getattr(s, "at_exit", False):
            r = sym("r0", 1, 1)
            if "r" not in LEARNED: raise Unsupported("no remainder found in the loop")
            for v in LEARNED["r"]: out[v] = r
            T.add_rule("inv", T.scale(T.einsum([r.v, w.SB(0).v], [list("ab"), list("bP")], list("aP")), A.aspoly(Z)), w.SG(0).v)
        elif not (i == N - 1):
            l = spec([w.X(i), w.SB(i + 1)], ["abs", "bP"], "asP")
            T.add_rule("inv", T.scale(l.v, A.aspoly(Z)), spec([w.G(i), w.SG(i + 1)], ["abs", "bP"], "asP").v)
        return out

class LW:
    """families of the list truncation: G input, B right isometries (bonds D')"""
    def __init__(s, N): s.N = N
    def c(s, q):
        for x in (0, s.N - 1):
            if q == x: return x
        return q
    def g(s, k, f):
        k = SInt.mk(pint(k))
        if k == 0 or k == s.N: return 1
        return bonddim(f, k)
    def G(s, q): return sym("G[%s]" % pint(s.c(q)), s.g(q, "D"), s.g(SInt.mk(pint(q)) + 1, "D"), bonddim("d", s.c(q)))
    def B(s, q): return right_iso(sym("B[%s]" % pint(s.c(q)), s.g(q, "D'"), s.g(SInt.mk(pint(q)) + 1, "D'"), bonddim("d", s.c(q))), "")
    def X(s, q): return s.G(q) if q == s.N - 1 else sym("X[%s]" % pint(s.c(q)), s.g(q, "D"), s.g(SInt.mk(pint(q)) + 1, "D'"), bonddim("d", s.c(q)))
    def SG(s, k): return Arr(T.eye(1)) if k == s.N else sym("SG[%s]" % pint(s.c(k)), s.g(k, "D"), dim("P[%s]" % pint(s.c(k))))
    def SB(s, k): return Arr(T.eye(1)) if k == s.N else sym("SB[%s]" % pint(s.c(k)), s.g(k, "D'"), dim("P[%s]" % pint(s.c(k))))
    def A(s, q): return left_iso(sym("A[%s]" % pint(s.c(q)), s.g(q, "D''"), s.g(SInt.mk(pint(q)) + 1, "D''"), bonddim("d", s.c(q))), "")


class Sweep:
    """invariant of the truncating sweep over a list"""
    fields = ()
    def __init__(s, run, N): s.run, s.special = run, (0, N - 1)
    def lists(s): return [s.run.arg] + ([s.lams] if getattr(s, "lams", None) is not None else [])

    def check(s, i, locs, phase):
        run, w, N, g = s.run, s.run.w, s.run.N, s.run.arg
        if phase == "init":
            C().ob("truncateMPS.order", run.ortho == 1, "engine", "the list is not orthogonalised before the weights are cut")
            k = sint("k0")
            assume(k >= 0); assume(k < N)
            s.run.first = g[0]
            if not (k == 0): ensure_eq("truncateMPS.start", g[k], w.B(k))
            # the number left of the first tensor is normalised
            ensure_eq("truncateMPS.start-ray", spec([g[0], A.conj(g[0])], ["abs", "acs"], "bc"), spec([w.B(0), A.conj(w.B(0))], ["abs", "acs"], "bc"))
            ls = [x for x in locs.values() if isinstance(x, VList) and x is not run.arg and x.symlen() == 0]
            s.lams = ls[0] if len(ls) == 1 else None
            return
        n = s.index
        if len(run.calls) != 1: raise VCFail("truncateMPS.one-decomposition", "%d decompositions in one step" % len(run.calls))
        X, right, D, thresh, out = run.calls[0]
        C().ob("truncateMPS.direction", right, "engine")
        limits("truncateMPS.", D, 1e-32, run.D, 1e-32)
        ensure_eq("truncateMPS.decomposed", X, s.start)
        iso, mat = parts(run.calls[0])
        if n == N - 1:
            ensure_eq("truncateMPS.last-tensor", g[n], spec([iso, mat], ["abs", "bc"], "acs"))
            frame("truncateMPS.list", g, [n])
        else:
            ensure_eq("truncateMPS.isometry", g[n], iso)
            ensure_eq("truncateMPS.absorbed", g[n + 1], spec([mat, w.B(n + 1)], ["ab", "bcs"], "acs"))
            frame("truncateMPS.list", g, [n, n + 1])
        if s.lams is None: raise Unsupported("no list of weights")
        ensure("truncateMPS.lambda-count", SInt.mk(pint(s.lams.symlen())) == n + 1)
        ensure_eq("truncateMPS.lambda", s.lams[n], out[1])

    def havoc(s, i, locs):
        run, w, N = s.run, s.run.w, s.run.N
        s.index = i
        run.calls[:] = []
        if s.lams is not None: rows(s.lams, lambda q: sym("lam[%s]" % pint(q), bonddim("D''", q), cx=False), i)
        if i == 0: s.start = run.first
        elif not getattr(s, "at_exit", False): s.start = sym("Y[%s]" % pint(i), w.g(i, "D''"), w.g(i + 1, "D'"), bonddim("d", w.c(i)))

        def ten(q):
            if q == i: return s.start
            if q < i: return sym("last", w.g(q, "D''"), 1, bonddim("d", w.c(q))) if q == N - 1 else w.A(q)
            return w.B(q)
        rows(run.arg, ten, N)
        return {}


def qr_contract(run):
    def pt(tensor, direction, fixphase=None):
        X = Arr(T.rewrite(A.toarr(tensor).v))
        q, r, Z = prepareTensor(tensor, direction)
        run.rs.append((X, direction, q, r))
        run.last = (r, Z)
        return q, r, Z
    return pt


@R.group("orthonormalizeQR.left", ["mpsfunctions.orthonormalizeQR"])
def _():
    mf = MF()
    N = sint("N")
    assume(N >= 3)
    run = Run()
    run.w, run.N, run.rs, run.zname = LW(N), N, [], None
    run.arg = VList.family(lambda q: run.w.G(SInt.mk(pint(q))), N)
    C().data["loop_handler"] = over(N - 1, -1, -1, lambda: Ortho(run, N))
    with patched(mf, prepareTensor=qr_contract(run)):
        r = returned("orthonormalizeQR", call("orthonormalizeQR", mf.orthonormalizeQR, run.arg, -1, 0, N - 1))
    ensure_eq("ortho.remainder", spec([r, run.w.SB(0)], ["ab", "bP"], "aP"), run.w.SG(0))


@R.group("truncateMPS", ["mpsfunctions.truncateMPS"])
def _():
    mf = MF()
    c = C()
    N = sint("N")
    assume(N >= 3)
    run = Run()
    run.w, run.N, run.ortho, run.D = LW(N), N, 0, sint("D")
    assume(run.D >= 1)
    run.arg = VList.family(lambda q: run.w.G(SInt.mk(pint(q))), N)
    ph = rscalar("phase")

    def ortho(mps, direction, site1, site2):
        """contract of orthonormalizeQR (group orthonormalizeQR.left): right isometries, the remaining number is returned"""
        C().ob("truncateMPS.ortho-list", mps is run.arg, "engine")
        ensure("truncateMPS.ortho-range", core.SBool(z3.And(zint(site1) == 0, zint(site2) == zint(N - 1))))
        C().ob("truncateMPS.ortho-direction", direction < 0, "engine")
        rows(mps, lambda q: run.w.B(q), N)
        run.ortho = 1
        r = sym("r0", 1, 1)
        return r
    c.data["loop_handler"] = over(0, N, 1, lambda: Sweep(run, N))
    with patched(mf, orthonormalizeQR=ortho, prepareTruncate=truncated(run)):
        lams = returned("truncateMPS", call("truncateMPS", mf.truncateMPS, run.arg, run.D))
    ensure("truncateMPS.number-of-lambdas", lams.symlen() == N)


def list_bounded(N):
    mf = MF()
    m, ts = concrete_mps(N, 0)
    arg = VList(list(ts))
    run = Run()
    D = sint("D")
    assume(D >= 1)
    run.rs = []
    with patched(mf, prepareTensor=qr_contract(run), prepareTruncate=truncated(run)):
        lams = returned("truncateMPS", call("truncateMPS", mf.truncateMPS, arg, D))
    C().ob("truncateMPS.lengths", len(lams) == N and len(arg) == N and len(run.calls) == N, "engine")
    # before the cut: right isometries (first decomposition: a multiple of the first of them) representing the state
    bs = [x[2] for x in reversed(run.rs)]
    if len(bs) != N: raise Unsupported("%d orthogonalisations of %d tensors" % (len(bs), N))
    ray("truncateMPS.state", dense([run.calls[0][0]] + bs[1:]), dense(list(ts)))
    for k in range(N):
        X, right, d, thr, out = run.calls[k]
        limits("truncateMPS.", d, 1e-32, D, 1e-32)
        C().ob("truncateMPS.direction", right, "engine")
        iso, mat = parts(run.calls[k])
        if k: ensure_eq("truncateMPS.chain", X, spec([parts(run.calls[k - 1])[1], bs[k]], ["ab", "bcs"], "acs"))
        ensure_eq("truncateMPS.tensor", arg[k], iso if k < N - 1 else spec([iso, mat], ["abs", "bc"], "acs"))
        ensure_eq("truncateMPS.lambda", lams[k], out[1])


from .tdvp import ray
R.group("truncateMPS.short", ["mpsfunctions.truncateMPS", "mpsfunctions.orthonormalizeQR"], bounded_only=True, bound="lists of 1 and 2 tensors, symbolic dimensions and entries")(lambda: list_bounded(1 + C().choose(2)))
R.fallback("truncateMPS", "lists of 1 to 4 tensors")(lambda: list_bounded(1 + C().choose(4)))


# ---- truncating a unit cell ---------------------------------------------------------------------------------------------
from . import C18
from .C18 import Run18, Scale, aside, posray


def svd_sorted(n):
    r = C18.svd_square(n)
    if r is not None: C().data[("descending", r[1].v.terms[0][1][0].sym)] = True
    return r


class CellTrunc(Run18):
    """ghost state of the truncating branch of regaugeIMPS"""
    def __init__(s, N, D, thr):
        Run18.__init__(s, N)
        s.lim, s.thr, s.K, s.log, s.again = D, thr, None, Run(), []
        C().data["svd_hooks"] = [svd_sorted]

    def b(s, k, f="c"):
        k = SInt.mk(pint(k))
        if k == 0 or k == s.N: return s.D if f == "c" else s.K
        if f == "t":
            d = dim("t[%s]" % pint(k))
            if s.lim is not None: assume(d <= s.lim)
            return d
        return bonddim(f, k)

    def regauge(s, mps, gauge, ldens=None, rdens=None, truncate=1e-16, D=None, *a, **k):
        """contract of regaugeIMPS without truncation (C18)"""
        s.again.append((mps, gauge, ldens, rdens, truncate))
        s.result = sym("lam2", s.K, s.K)
        return s.result

    def recursion(s, r):
        C().ob("cell.regauged-at-the-end", len(s.again) == 1, "engine", "%d regaugings of the truncated cell" % len(s.again))
        mps, gauge, l, rr, t = s.again[0]
        C().ob("cell.regauged-list", mps is s.arg, "engine")
        C().ob("cell.regauged-symmetric", gauge == "symmetric" and l is None and rr is None and t <= 1e-15, "engine", "regauged as %s, truncation %s" % (gauge, t))
        C().ob("cell.returned", r is s.result, "engine", "the bond matrix of the final regauging is not returned")


def kept(r):
    """number of Schmidt values kept at the boundary of the cell: those above the threshold (normalised values), one at least, D at most"""
    c = C()
    w, S, V, M = c.data["svd"]
    if len(c.data.get("kept", ())) != 1: raise Unsupported("values above the threshold counted %d times" % len(c.data.get("kept", ())))
    cnt, thr, d = c.data["kept"][0]
    ensure_eq("cell.threshold", A.toarr(thr), A.toarr(r.thr))
    ensure_eq("cell.threshold-on-normalised-values", c.data["kept_of"][0] * A.norm(S), S)
    want = cnt
    if want < 1: want = 1
    if r.lim is not None and r.lim < want: want = r.lim
    return want


def cell_ends(r, f0, fN):
    """the boundary after the cut: orthonormal left Schmidt vectors, right ones weighted with the leading Schmidt values, and the old
    state projected onto the left ones is the new right half"""
    N = r.N
    for q in ((0, N - 1) if r.N != 1 else (0,)):
        for x in (1, -1): r.unfold(q, x)
    K = kept(r)
    ensure("cell.number-kept", core.SBool(z3.And(zint(f0.shape[0]) == zint(K), zint(fN.shape[1]) == zint(K))))
    w, S, V, M = C().data["svd"]
    wk = w[:, 0:f0.shape[0]]
    Sk = S[0:f0.shape[0]]
    A.norm(Sk)        # not zero
    posray("cell.left-orthonormal", spec([r.env(N - 1, 1), fN, A.conj(fN)], ["ab", "axs", "bys"], "xy"), A.np_eye(fN.shape[1]))
    posray("cell.right-weights", spec([r.env(1, -1), f0, A.conj(f0)], ["ab", "xas", "ybs"], "xy"),
           spec([A.conj(wk), M, A.conj(M), wk], ["ax", "ab", "cb", "cy"], "xy"), A.diag(Sk * Sk))        # = S^2 of the values kept, from M = W S V
    posray("cell.projection", spec([r.env(N - 1, 1), r.T(N - 1), A.conj(fN), r.T(0)], ["ab", "axs", "bus", "xyt"], "uyt"), f0)


class CellFirst:
    """first sweep: left isometries, products of neighbours kept"""
    fields = ()
    def __init__(s, run): s.run, s.special = run, (0, run.N - 2)
    def lists(s): return [s.run.arg]
    def iso(s, q):
        r, q = s.run, SInt.mk(pint(q))
        return left_iso(sym("A[%s]" % pint(q), r.b(q, "k"), r.b(q + 1, "k"), bonddim("d", q)), "")
    def head(s, q):
        r, q = s.run, SInt.mk(pint(q))
        if q == 0: return s.first
        return sym("X[%s]" % pint(q), r.b(q, "k"), r.b(q + 1, "k") if q == r.N - 1 else r.b(q + 1), bonddim("d", q))
    def rest(s, q): return s.last if q == s.run.N - 1 else s.run.Ts(q)

    def check(s, i, locs, phase):
        r, N, g = s.run, s.run.N, s.run.arg
        if phase == "init":
            C().ob("cell.order", r.phase == "scaled", "engine")
            r.phase = "sweep"
            f0, fN = g[0], g[N - 1]
            s.first, s.last, r.K = f0, fN, f0.shape[0]
            aside(lambda: cell_ends(r, f0, fN))
            def middle():
                k = sint(C().fresh("k"))
                assume(k > 0); assume(k < N - 1)
                ensure_eq("cell.middle", g[k], r.Ts(k))
            aside(middle)
            return
        n = s.index
        t, nx = g[n], g[n + 1]
        e = spec([t, A.conj(t)], ["abs", "acs"], "bc")
        ensure_eq("cell.isometry", e, A.np_eye(t.shape[1]))
        frame("cell.first-sweep", g, {n: 1, n + 1: 1})
        posray("cell.state", spec([t, nx], ["abs", "bct"], "asct"), spec([s.head(n), s.rest(n + 1)], ["abs", "bct"], "asct"))

    def havoc(s, i, locs):
        s.index = i
        if getattr(s, "at_exit", False): s.run.phase = "canonical"
        rows(s.run.arg, lambda q: s.head(q) if q == i else s.iso(q) if q < i else s.rest(q), s.run.N)
        return {}


class CellSecond:
    """second sweep: every bond inside the cell is cut within the limits, from the last tensor to the first"""
    fields = ()
    def __init__(s, run, first): s.run, s.f, s.special = run, first, (run.N - 1, 1)
    def lists(s): return [s.run.arg]
    def iso(s, q):
        r, q = s.run, SInt.mk(pint(q))
        return right_iso(sym("B[%s]" % pint(q), r.b(q, "t"), r.b(q + 1, "t"), bonddim("d", q)), "")
    def head(s, q):
        r, q = s.run, SInt.mk(pint(q))
        if q == r.N - 1: return s.f.head(q)
        return sym("Y[%s]" % pint(q), r.b(q, "k"), r.b(q + 1, "t"), bonddim("d", q))

    def check(s, i, locs, phase):
        r, N, g = s.run, s.run.N, s.run.arg
        if phase == "init":
            C().ob("cell.cut-order", r.phase == "canonical", "engine")
            r.phase = "cutting"
            return
        n = s.index
        if len(r.log.calls) != 1: raise VCFail("cell.one-decomposition", "%d decompositions in one step" % len(r.log.calls))
        X, right, D, thresh, out = r.log.calls[0]
        C().ob("cell.cut-direction", not right, "engine")
        limits("cell.", D, thresh, r.lim, r.thr)
        ensure_eq("cell.cut-tensor", X, s.head(n))
        iso, mat = parts(r.log.calls[0])
        ensure_eq("cell.cut-isometry", g[n], iso)
        ensure_eq("cell.cut-absorbed", g[n - 1], spec([s.f.iso(n - 1), mat], ["abs", "bc"], "acs"))
        frame("cell.cut", g, {n: 1, n - 1: 1})
        if r.lim is not None: ensure("cell.cut-within-limit", g[n].shape[0] <= r.lim)

    def havoc(s, i, locs):
        r = s.run
        s.index = i
        r.log.calls[:] = []
        if getattr(s, "at_exit", False): r.phase = "cut"
        rows(r.arg, lambda q: s.head(q) if q == i else s.iso(q) if q > i else s.f.iso(q), r.N)
        return {}


def cell_limits():
    c = C()
    D = None
    if c.choose(2, "limit"):
        D = sint("Dlim")
        assume(D >= 1)
    return D, [1e-14, 0.25][c.choose(2)]


@R.group("cell.truncate", ["mpsfunctions.regaugeIMPS"], maxpaths=900)
def _():
    mf = MF()
    c = C()
    N = sint("N")
    assume(N >= 3)
    D, thr = cell_limits()
    r = CellTrunc(N, D, thr)
    r.arg = arg = VList.family(lambda q: r.T(SInt.mk(q)), N)
    st = {"scaling": False}

    def handler(rng, locs, lid):
        if spans(rng, 0, N, 1):
            if not st["scaling"]: raise Unsupported("loop over all tensors without an eigenvalue")
            st["scaling"] = False
            return Scale(r)
        if spans(rng, 0, N - 1, 1) and r.phase == "scaled" and len(r.calls) == 2:
            st["first"] = CellFirst(r)
            return st["first"]
        if spans(rng, N - 1, 0, -1) and r.phase == "canonical": return CellSecond(r, st["first"])
        raise Unsupported("loop over an unexpected range")
    c.data["loop_handler"] = handler

    def eigs(*a, **k):
        st["scaling"] = True
        return r.eigs(*a, **k)

    def prepare(tensor, direction, fixphase=None):
        C().ob("cell.sweep-direction", direction > 0, "engine", "decomposition in the wrong direction")
        return prepareTensor(tensor, direction)
    real = mf.regaugeIMPS
    with patched(mf, UnitcellTMeigs=eigs, prepareTensor=prepare, prepareTruncate=truncated(r.log), regaugeIMPS=r.regauge):
        lam = returned("regaugeIMPS", call("regaugeIMPS", real, arg, "symmetric", truncate=thr, D=D))
    C().ob("cell.cut", r.phase == "cut", "engine", "the bonds inside the cell are not cut")
    r.recursion(lam)
    sec = CellSecond(r, st["first"])
    A.norm(sec.head(0))     # not zero
    c.posatoms |= {a for x in (r.K, A.np_sqrt(1 / A.toarr(r.K))) for a in A.aspoly(A.toarr(x)).atoms()}      # at least one value is kept
    posray("cell.first-tensor", arg[0], sec.head(0))
    k = sint("k")
    assume(k > 0); assume(k < N)
    ensure_eq("cell.tensors", arg[k], sec.iso(k))
    if D is not None: ensure("cell.within-limit", core.SBool(z3.And(zint(arg[k].shape[0]) <= zint(D), zint(r.K) <= zint(D))))
    ensure("cell.at-least-one", r.K >= 1)


def cell_bounded(Ns):
    """cells of known length: the boundary when the sweeps begin, the cell when the cut begins, every decomposition, the end"""
    mf = MF()
    c = C()
    N = Ns[c.choose(len(Ns))]
    D, thr = cell_limits()
    r = CellTrunc(N, D, thr)
    r.arg = arg = VList([r.T(q) for q in range(N)])
    for q in range(N):
        for d in (1, -1): r.unfold(q, d)
    st = {}

    def eigs(mps, direction, numeig, init=None, nmax=800, tolerance=1e-12, ncv=10, which="LM"):
        if which not in ("LR", "LM"): raise Unsupported("which=%s" % which)
        ts = [mps[q] for q in range(N)]
        f = None
        for f_, e in ((A.toarr(1), r.eta), (1.0 / r.rho, A.toarr(1))):
            if all(T.equal(ts[q].v, (r.T(q) * f_).v)[0] for q in range(N)): f = e
        if f is None: raise Unsupported("eigenvectors of another cell")
        return f, A.reshape((r.L if direction > 0 else r.R).P, (r.D * r.D,)) * cscalar(c.fresh("kappa")), numeig

    def prepare(tensor, direction, fixphase=None):
        if "start" not in st:
            st["start"] = [arg[q] for q in range(N)]
            r.K = arg[0].shape[0]
        return prepareTensor(tensor, direction)
    cut = truncated(r.log)

    def prepare_cut(tensor, direction, D=None, thresh=1e-32, r_thresh=1e-14):
        if "cell" not in st:
            if "start" not in st: raise Unsupported("the cell is cut without a canonical form")
            st["cell"] = [arg[q] for q in range(N)]
        return cut(tensor, direction, D=D, thresh=thresh, r_thresh=r_thresh)
    real = mf.regaugeIMPS

    def again(*a, **k):
        st["end"] = [arg[q] for q in range(N)]
        return r.regauge(*a, **k)
    with patched(mf, UnitcellTMeigs=eigs, prepareTensor=prepare, prepareTruncate=prepare_cut, regaugeIMPS=again):
        lam = returned("regaugeIMPS", call("regaugeIMPS", real, arg, "symmetric", truncate=thr, D=D))
    if "cell" not in st: raise Unsupported("no bond is cut")
    r.recursion(lam)
    s0, s1, s2 = st["start"], st["cell"], st["end"]
    aside(lambda: cell_ends(r, s0[0], s0[-1]))
    for q in range(1, N - 1): ensure_eq("cell.middle", s0[q], r.Ts(q))
    for t in s1[:-1]: ensure_eq("cell.isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
    posray("cell.state", dense_open(s1), dense_open(s0))
    want, calls = list(s1), list(r.log.calls)
    C().ob("cell.every-bond-cut", len(calls) == N - 1, "engine", "%d decompositions of a cell of %d tensors" % (len(calls), N))
    for n, cl in zip(range(N - 1, 0, -1), calls):
        X, right, d, th, out = cl
        C().ob("cell.cut-direction", not right, "engine")
        limits("cell.", d, th, D, thr)
        ensure_eq("cell.cut-tensor", X, want[n])
        want[n], mat = parts(cl)
        want[n - 1] = spec([want[n - 1], mat], ["abs", "bc"], "acs")
    for q in range(1, N): ensure_eq("cell.tensors", s2[q], want[q])
    A.norm(want[0])
    c.posatoms |= {a for x in (r.K, A.np_sqrt(1 / A.toarr(r.K))) for a in A.aspoly(A.toarr(x)).atoms()}
    posray("cell.first-tensor", s2[0], want[0])


def dense_open(ts):
    return Arr(T.einsum([t.v for t in ts], [["b%d" % k, "b%d" % (k + 1), "s%d" % k] for k in range(len(ts))], ["b0", "b%d" % len(ts)] + ["s%d" % k for k in range(len(ts))]))


R.fallback("cell.truncate", "cells of 3 tensors, symbolic dimensions and entries")(lambda: cell_bounded((3,)))
R.group("cell.truncate.short", ["mpsfunctions.regaugeIMPS"], bounded_only=True, bound="cells of 2 tensors, symbolic dimensions and entries")(lambda: cell_bounded((2,)))
