"""C01: moving the orthogonality centre never changes the state."""
from .base import *
from .callee import *
R = Registry()


def seg(name, lo, hi, left, P, right):
    """opaque product of the tensors lo..hi-1 (spec function); P: the fused physical leg"""
    return sym("%s[%s,%s]" % (name, pint(lo), pint(hi)), left, P, right)


class Move:
    """loop invariant of the centre move.  Two equivalent forms, chosen by what the body keeps:
    'absorbed': the centre matrix is contained in tensor n,  'separate': it is in self._mat."""
    def __init__(s, m, right, N, p, M0, Z0, orig):
        s.m, s.right, s.N, s.p, s.M0, s.Z0, s.orig = m, right, N, p, M0, Z0, orig
        s.form = None
        s.at_exit = False
        s.over0 = None

    # bonds of the processed part:  right: sites p..n-1,  left: sites n+1..p-1 (loop index n)
    def segs(s, n):
        if s.right:
            lo, hi = s.p, n
            S = seg("S", lo, hi, bonddim("D", s.p), dim("P[%s,%s]" % (pint(lo), pint(hi))), bonddim("D", n))
            S2 = seg("S'", lo, hi, s.M0.shape[0], dim("P[%s,%s]" % (pint(lo), pint(hi))), s.inner(n))
        else:
            lo, hi = n, s.p
            S = seg("S", lo, hi, bonddim("D", n), dim("P[%s,%s]" % (pint(lo), pint(hi))), bonddim("D", s.p))
            S2 = seg("S'", lo, hi, s.inner(n), dim("P[%s,%s]" % (pint(lo), pint(hi))), s.M0.shape[1])
        return S, S2

    def inner(s, n): return dim("D'[%s]" % pint(n))

    def eq(s, S, S2, X, n, absorbed):
        """both sides of the invariant equation"""
        if s.right:
            if absorbed:
                t = s.orig[n]
                return spec([S2, X], ["aPb", "bcs"], "aPcs") * s.m._Z, spec([s.M0, S, t], ["ab", "bPc", "cds"], "aPds") * s.Z0
            return spec([S2, X], ["aPb", "bc"], "aPc") * s.m._Z, spec([s.M0, S], ["ab", "bPc"], "aPc") * s.Z0
        if absorbed:
            t = s.orig[n - 1]
            return spec([X, S2], ["abs", "bPc"], "asPc") * s.m._Z, spec([t, S, s.M0], ["abs", "bPc", "cd"], "asPd") * s.Z0
        return spec([X, S2], ["ab", "bPc"], "aPc") * s.m._Z, spec([S, s.M0], ["aPb", "bc"], "aPc") * s.Z0

    def cut(s, i):
        """bond reached when the loop index is about to be i"""
        return i if s.right else i + 1

    def cursite(s, c): return c if s.right else c - 1

    def check(s, i, locs, phase):
        c = s.cut(i)
        m = s.m
        name = "position.%s.%s" % ("right" if s.right else "left", phase)
        if phase == "init":
            # before the loop nothing has been processed: S = S' = 1
            k = s.cursite(c)
            X = m._tensors[k]
            t = s.orig[k]
            sep = T.equal(A.toarr(m._mat).v, s.M0.v)[0] and X.shape[0] is not None and _same(X, t)
            absorbed = _same(X, spec([s.M0, t], ["ab", "bcs"], "acs") if s.right else spec([t, s.M0], ["abs", "bc"], "acs"))
            if absorbed: s.form = "absorbed"
            elif sep: s.form = "separate"
            else: raise Unsupported("invariant not established: tensor at the centre is neither the original nor has the centre matrix absorbed")
            C().ob(name, T.equal(A.toarr(m._Z).v, A.toarr(s.Z0).v)[0], "tensor", "norm factor changed before the loop")
            return
        # preserved: unfold the processed segment by the site just finished
        n = s.index
        Anew = m._tensors[n]
        c0 = s.cut(n)
        iso = spec([Anew, A.conj(Anew)], ["abs", "acs"], "bc") if s.right else spec([Anew, A.conj(Anew)], ["abs", "cbs"], "ac")
        ensure_eq(name + ".isometry", iso, A.np_eye(Anew.shape[1] if s.right else Anew.shape[0]))
        S, S2 = s.segs(c0)
        t = s.orig[n]
        if s.right:
            Sx, S2x = spec([S, t], ["aPb", "bcs"], "aPsc"), spec([S2, Anew], ["aPb", "bcs"], "aPsc")
        else:
            Sx, S2x = spec([t, S], ["abs", "bPc"], "asPc"), spec([Anew, S2], ["abs", "bPc"], "asPc")
        k = s.cursite(c)
        last = not (c < s.bond) if s.right else not (c > s.bond)
        absorbed = s.form == "absorbed" and not last
        X = m._tensors[k] if absorbed else A.toarr(m._mat)
        if s.right:
            if absorbed:
                l, r = spec([S2x, X], ["aPsb", "bct"], "aPsct") * m._Z, spec([s.M0, Sx, s.orig[k]], ["ab", "bPsc", "cdt"], "aPsdt") * s.Z0
            else: l, r = spec([S2x, X], ["aPsb", "bc"], "aPsc") * m._Z, spec([s.M0, Sx], ["ab", "bPsc"], "aPsc") * s.Z0
        else:
            if absorbed:
                l, r = spec([X, S2x], ["abt", "bsPc"], "atsPc") * m._Z, spec([s.orig[k], Sx, s.M0], ["abt", "bsPc", "cd"], "atsPd") * s.Z0
            else: l, r = spec([X, S2x], ["ab", "bsPc"], "asPc") * m._Z, spec([Sx, s.M0], ["asPb", "bc"], "asPc") * s.Z0
        ensure_eq(name + ".state", l, r)
        ensure_eq(name + ".mat-norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1)) if not absorbed else None
        # frame: only the finished and the next site were written
        for key, v in m._tensors.sym["over"][s.nover:]:
            if isinstance(key, tuple): raise Unsupported("bulk write in the loop")
            ok = key == pint(n) or (absorbed and key == pint(k))
            C().ob(name + ".frame", ok, "engine", "write to tensor %s during the step at %s" % (key, pint(n)))
        if not absorbed and not last: C().ob(name + ".next-untouched", _same(m._tensors[k], s.orig[k]), "tensor")

    fields = ("_Z", "_mat", "_tensors")
    def lists(s): return [s.m._tensors]

    def havoc(s, i, locs):
        c = s.cut(i)
        m = s.m
        c_ = C()
        # the norm factor accumulated so far: unknown non-zero multiple
        m._Z = s.Z0 * posreal(c_.fresh("zeta"))
        S, S2 = s.segs(c)
        # ghost facts about the processed part: it is an isometry
        if s.right: T.add_rule("S'+S'=1", T.einsum([S2.v, T.conj(S2.v)], [list("aPb"), list("aPc")], list("bc")), T.eye(s.inner(c), cx=True))
        else: T.add_rule("S'S'+=1", T.einsum([S2.v, T.conj(S2.v)], [list("aPb"), list("cPb")], list("ac")), T.eye(s.inner(c), cx=True))
        absorbed = s.form == "absorbed" and not s.at_exit
        k = s.cursite(c)
        if s.right:
            X = sym("X[%s]" % pint(c), s.inner(c), bonddim("D", k + 1), bonddim("d", k)) if absorbed else sym("m[%s]" % pint(c), s.inner(c), bonddim("D", c))
        else:
            X = sym("X[%s]" % pint(c), bonddim("D", k), s.inner(c), bonddim("d", k)) if absorbed else sym("m[%s]" % pint(c), bonddim("D", c), s.inner(c))
        if absorbed: m._mat = Poison("self._mat")
        else:
            m._mat = X
            T.add_rule("|mat|=1", T.einsum([X.v, T.conj(X.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
        lhs, rhs = s.eq(S, S2, X, c, absorbed)
        T.add_rule("inv", lhs.v, rhs.v)
        # the list: processed sites are unspecified isometries, the current one is X, the rest is original
        base = s.orig

        def fn(p, s=s, c=c, X=X, absorbed=absorbed, k=k):
            q = SInt.mk(p)
            done = (q >= s.p and q < c) if s.right else (q >= c and q < s.p)
            if done: return s.done(p)
            if absorbed and q == k: return X
            return base[q]
        m._tensors = VList.family(fn, s.N)
        s.nover = 0
        s.index = i
        s.reached = c
        return {}

    def done(s, p):
        q = SInt.mk(p)
        l = s.inner(q) if not (q == s.p) else s.M0.shape[0]
        r = s.inner(q + 1) if not (q + 1 == s.p) else s.M0.shape[1]
        t = sym("A'[%s]" % p, l, r, bonddim("d", q))
        iso3(t, s.right, "")
        return t


def _same(a, b):
    try: return T.equal(a.v, b.v)[0]
    except (VCFail, Unsupported): return False


def sym_state(N, p):
    c = C()
    orig = site_family("T", N)
    # obc ends are not needed: the argument is local to the traversed range
    rect = c.choose(2, "rectangular centre matrix")
    M0 = sym("M0", bonddim("D", p) if not rect else dim("Dl"), bonddim("D", p)) if True else None
    return orig, M0


def run_position(right, svd):
    M = MPSM()
    mf = MF()
    N, p, b = sint("N"), sint("pos"), sint("bond")
    assume(N >= 1); assume(p >= 0); assume(p <= N); assume(b >= 0); assume(b <= N)
    assume(b > p if right else b < p)
    orig = site_family("T", N)
    # a centre matrix may be rectangular: its far dimension is that of the untouched neighbour
    M0 = sym("M0", dim("Dl"), bonddim("D", p)) if right else sym("M0", bonddim("D", p), dim("Dr"))
    Z0 = cscalar("Z0")
    m = mps_obj(N, VList.family(lambda q: orig[SInt.mk(q)], N), p, M0, Z0)
    inv = Move(m, right, N, p, M0, Z0, orig)
    inv.bond = b
    C().data["loop_handler"] = lambda rng, locs, lid: inv
    kw = {"schmidt_thresh": 1e-10} if svd else {}
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate):
        call("position", m.position, b, **kw)
    ensure("position.pos", m._position == b)
    if not getattr(inv, "form", None): raise Unsupported("no loop over the chain found")
    # after the loop the invariant holds at bond b: it is the postcondition
    S, S2 = inv.segs(b)
    l, r = inv.eq(S, S2, A.toarr(m._mat), b, False)
    name = "position.%s." % ("right" if right else "left")
    ensure_eq(name + "state", l, r)
    ensure_eq(name + "mat-norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1))
    # sites outside the traversed range are the original ones
    j = sint("j")
    assume(j >= 0); assume(j < N)
    if (j < p or j >= b) if right else (j < b or j >= p):
        C().ob(name + "outside-untouched", _same(m._tensors[j], orig[j]), "tensor")
    else:
        t = m._tensors[j]
        e = spec([t, A.conj(t)], ["abs", "acs"], "bc") if right else spec([t, A.conj(t)], ["abs", "cbs"], "ac")
        ensure_eq(name + "isometry", e, A.np_eye(t.shape[1] if right else t.shape[0]))


for _r in (True, False):
    for _s in (False, True):
        R.group("position.%s.%s" % ("right" if _r else "left", "svd" if _s else "qr"), ["MPS.position", "MPS.__position__"])(lambda r=_r, s=_s: run_position(r, s))


@R.group("position.noop-and-refusal", ["MPS.__position__"])
def _():
    N, p, b = sint("N"), sint("pos"), sint("bond")
    assume(N >= 1); assume(p >= 0); assume(p <= N)
    orig = site_family("T", N)
    M0 = sym("M0", bonddim("D", p), bonddim("D", p))
    m = mps_obj(N, VList.family(lambda q: orig[SInt.mk(q)], N), p, M0, cscalar("Z0"))
    w = C().choose(3)
    if w == 0:
        call("position", m.position, p)
        ensure("position.same.pos", m._position == p)
        ensure_eq("position.same.mat", m._mat, M0)
        ensure_eq("position.same.Z", m._Z, cscalar("Z0"))
        j = sint("j")
        assume(j >= 0); assume(j < N)
        C().ob("position.same.tensors", _same(m._tensors[j], orig[j]), "tensor")
    elif w == 1:
        assume(b > N)
        ensure_raises("position.refuse-above", lambda: m.position(b), (AssertionError, ValueError, IndexError))
    else:
        assume(b < 0)
        ensure_raises("position.refuse-below", lambda: m.position(b), (AssertionError, ValueError, IndexError))


def bounded(right, svd):
    mf = MF()
    c = C()
    N = 1 + c.choose(3, "N")
    p = c.choose(N + 1, "pos")
    b = c.choose(N + 1, "bond")
    if (b <= p) == right or b == p: return
    m, ts = concrete_mps(N, p)
    v0 = amplitudes(m)
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate):
        call("position", m.position, b, **({"schmidt_thresh": 1e-10} if svd else {}))
    ensure_eq("position.bounded.state", amplitudes(m), v0)
    ensure("position.bounded.pos", m._position == b)
    ensure_eq("position.bounded.mat-norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1))
    for k in range(N):
        t = m._tensors[k]
        if (p <= k < b) if right else (b <= k < p):
            e = spec([t, A.conj(t)], ["abs", "acs"], "bc") if right else spec([t, A.conj(t)], ["abs", "cbs"], "ac")
            ensure_eq("position.bounded.isometry", e, A.np_eye(t.shape[1] if right else t.shape[0]))
        else: C().ob("position.bounded.outside", _same(t, ts[k]), "tensor")


for _r in (True, False):
    for _s in (False, True):
        R.fallback("position.%s.%s" % ("right" if _r else "left", "svd" if _s else "qr"), "N<=3, symbolic dimensions and entries")(lambda r=_r, s=_s: bounded(r, s))


@R.group("norm.lemma", ["(lemma) the norm factor absorbs the norm of the centre matrix when a canonical state is moved"])
def _():
    """M0.S = zeta.S'.M', S right isometric (left for a left move), S' left isometric, |M'|=1  =>  zeta^2 = |M0|^2"""
    a, b, c, P = dim("a"), dim("b"), dim("c"), dim("P")
    right = C().choose(2) == 1
    zeta = posreal("zeta")
    M0 = sym("M0", a, b) if right else sym("M0", b, a)
    M1 = sym("M1", c, dim("e")) if right else sym("M1", dim("e"), c)
    e = M1.shape[1] if right else M1.shape[0]
    if right: S, S2 = sym("S", b, P, e), sym("S'", a, P, c)
    else: S, S2 = sym("S", e, P, b), sym("S'", c, P, a)
    T.add_rule("|M1|=1", T.einsum([M1.v, T.conj(M1.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
    if right:
        T.add_rule("iso S", T.einsum([S.v, T.conj(S.v)], [list("aPb"), list("cPb")], list("ac")), T.eye(b, cx=True))
        T.add_rule("iso S'", T.einsum([S2.v, T.conj(S2.v)], [list("aPb"), list("aPc")], list("bc")), T.eye(c, cx=True))
        l, r = spec([M0, S], ["ab", "bPc"], "aPc"), spec([S2, M1], ["aPb", "bc"], "aPc") * zeta
    else:
        T.add_rule("iso S", T.einsum([S.v, T.conj(S.v)], [list("aPb"), list("aPc")], list("bc")), T.eye(b, cx=True))
        T.add_rule("iso S'", T.einsum([S2.v, T.conj(S2.v)], [list("aPb"), list("cPb")], list("ac")), T.eye(c, cx=True))
        l, r = spec([S, M0], ["aPb", "bc"], "aPc"), spec([M1, S2], ["ab", "bPc"], "aPc") * zeta
    # the norms of both sides, evaluated with the isometries
    ensure_eq("norm.lemma.left", spec([l, A.conj(l)], ["aPc", "aPc"], ""), spec([M0, A.conj(M0)], ["ab", "ab"], ""))
    ensure_eq("norm.lemma.right", spec([r, A.conj(r)], ["aPc", "aPc"], ""), zeta * zeta)


# ---- lists of tensors ----------------------------------------------------------------------------------------------------
def word(ts, ends=()):
    """product of a list of tensors, matrices given by bond inserted"""
    ops, labs, cur = [], [], "b0"
    ends = dict(ends)
    for k in range(len(ts) + 1):
        if k in ends: ops.append(ends[k]); labs.append([cur, "m%d" % k]); cur = "m%d" % k
        if k < len(ts): ops.append(ts[k]); labs.append([cur, "b%d" % (k + 1), "s%d" % k]); cur = "b%d" % (k + 1)
    return Arr(T.einsum([A.toarr(o).v for o in ops], labs, ["b0"] + ["s%d" % k for k in range(len(ts))] + [cur]))


@R.group("list.orthonormalize", ["mpsfunctions.orthonormalizeQR", "mpsfunctions.orthonormalizeSVD"], bounded_only=True, bound="lists of 1 to 4 tensors, every range of sites, symbolic dimensions and entries")
def _():
    mf, c = MF(), C()
    N, right, qr = 1 + c.choose(4), c.choose(2) == 1, c.choose(2) == 1
    lo = c.choose(N)
    hi = lo + c.choose(N - lo)
    D = [dim("D%d" % k) for k in range(N + 1)]
    ts = [sym("T%d" % k, D[k], D[k + 1], dim("d%d" % k)) for k in range(N)]
    lst = VList(list(ts))

    def svd(t, direction, fixphase=None):
        r = prepareTruncate(t, direction)
        return r if direction > 0 else (r[2], r[1], r[0], r[3])
    with patched(mf, prepareTensor=prepareTensor, prepareTensorSVD=svd):
        mat = call("orthonormalize", mf.orthonormalizeQR if qr else mf.orthonormalizeSVD, lst, 1 if right else -1, lo, hi)
    ensure("orthonormalize.length", lst.symlen() == N)
    new = [lst[k] for k in range(N)]
    for k in range(N):
        if lo <= k <= hi:
            q = new[k]
            ensure_eq("orthonormalize.isometry", spec([q, q.conj()], ["abs", "acs"] if right else ["abs", "cbs"], "bc" if right else "ac"), Arr(T.eye(q.shape[1 if right else 0])))
        elif k != (hi + 1 if right else lo - 1): ensure_eq("orthonormalize.untouched", new[k], ts[k])
    if right and hi == N - 1: ensure_eq("orthonormalize.state", word(new, [(N, mat)]), word(ts))
    elif not right and lo == 0: ensure_eq("orthonormalize.state", word(new, [(0, mat)]), word(ts))
    else: posray("orthonormalize.state", word(new), word(ts))      # the remaining factor sits in the neighbouring tensor, the norm in the returned matrix
