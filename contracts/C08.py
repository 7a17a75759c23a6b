"""C08: applying gates and operators to a state acts as the operator on its amplitudes."""
from .base import *
from .callee import *
R = Registry()


def some_state(name="A", at=None):
    """arbitrary state of symbolic length; the centre is moved by the contract of position (C01).
    at(N): the bond an operation will move to: the centre is there already, or anywhere else"""
    N = sint("N")
    assume(N >= 1)
    target = at(N) if at else None
    there = at is not None and C().choose(2) == 1
    m, fam, p, b = state(name, N, pos=target if there else None)
    if at is not None and not there: assume(core.SBool(zint(p) != zint(target)))
    attach_position(m, name, m._N)
    m._gauge = (name, fam, m._mat, m._Z, b)
    m._glist = m._tensors
    return m, p


def site(N, last=0):
    s = sint("s")
    assume(s >= 0); assume(s < N - last)
    return s


def others(name, m, fam, touched, N):
    """frame: every site but the touched ones still holds the tensor of the gauge it was in"""
    j = sint("jf")
    assume(j >= 0); assume(j < N)
    for t in touched:
        if j == t: return
    C().ob(name, m._tensors[j] is fam[j] and fam[j].version == 0, "engine", "a site outside the support was changed")


@R.group("one-site-gate", ["MPS.applyOneSiteGate", "MPS.__applyOneSiteGate__", "MPS.__tensor__", "MPS.__setitem__"])
def _():
    mf = MF()
    mix("A", "g", Amat="A")
    m, p = some_state(at=lambda N: site(N) + 1)
    N = m._N
    s = sint("s")
    keep = C().choose(2) == 1
    d = bonddim("d", s)
    g = sym("g", d, dim("dout"))
    g0 = m._gauge
    with patched(mf, prepareTensor=prepareTensor):
        if keep: call("one-site", m.applyOneSiteGate, g, s)
        else: call("one-site", m.applyOneSiteGate, g, s, False)
    ensure_frame("one-site.gate-unchanged", g)
    nm, fam, mat, Z, b = m._gauge
    if keep:
        if not (m._position == s + 1): raise Unsupported("the centre is left elsewhere than documented")
        # before: Z T[s] mat (centre at s+1)  after: Z' T'[s] mat' = gate applied
        if m._gauge is not g0 or bool(p == s + 1):
            want = spec([fam[s], mat, g], ["abs", "bc", "st"], "act") * Z
            ensure_eq("one-site.amplitudes", spec([m._tensors[s], m._mat], ["abs", "bc"], "acs") * m._Z, want)
            t = m._tensors[s]
            ensure_eq("one-site.left-isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
            ensure_eq("one-site.centre-norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1))
        others("one-site.frame", m, fam, [s], N)
    else:
        ensure_eq("one-site.raw.amplitudes", m._tensors[s], spec([fam[s], g], ["abs", "st"], "abt"))
        ensure_eq("one-site.raw.mat", m._mat, mat)
        ensure_eq("one-site.raw.Z", A.toarr(m._Z), A.toarr(Z))
        others("one-site.raw.frame", m, fam, [s], N)


@R.fallback("one-site-gate", "N<=3, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "g", Amat="A")
    c = C()
    N = 1 + c.choose(3)
    p, s, keep = c.choose(N + 1), c.choose(N), c.choose(2) == 1
    m, ts = concrete_mps(N, p, "A")
    v = amplitudes(m)
    g = sym("g", ts[s].shape[2], dim("dout"))
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate):
        call("one-site", m.applyOneSiteGate, g, s, keep)
    l = "abcdef"[:N]
    ensure_eq("one-site.bounded.amplitudes", amplitudes(m), spec([v, g], [l, l[s] + "x"], l.replace(l[s], "x")))


@R.group("gate.refusals", ["MPS.__applyOneSiteGate__", "MPS.__applyTwoSiteGate__"])
def _():
    m, p = some_state()
    N = m._N
    w = C().choose(4)
    s = sint("s")
    if w < 2: assume(s >= 0)
    d = bonddim("d", s)
    if w == 0:
        assume(s >= N)
        ensure_raises("one-site.refuse-site", lambda: m.applyOneSiteGate(sym("g", d, d), s))
    elif w == 1:
        assume(s >= N - 1)
        ensure_raises("two-site.refuse-site", lambda: m.applyTwoSiteGate(sym("g", d, dim("e"), d, dim("e")), s))
    elif w == 2:
        assume(s >= 0); assume(s < N)
        ensure_raises("one-site.refuse-rank", lambda: m.applyOneSiteGate(sym("g", d, d, d, d), s))
    else:
        assume(s >= 0); assume(s < N - 1)
        ensure_raises("two-site.refuse-rank", lambda: m.applyTwoSiteGate(sym("g", d, d), s))


def split_kept():
    """case split: all singular values above the threshold, or not"""
    C().data["onkept"] = lambda cnt, thr, d: bool(core.SBool(zint(cnt) == zint(SInt.mk(d))))


def two_site(trunc, real=False):
    mf = MF()
    if real: C().data["kinds"] = {"A": False, "Amat": False}
    m, p = some_state(at=lambda N: site(N, 1) + 1)
    N = m._N
    s = sint("s")
    d1, d2 = bonddim("d", s), bonddim("d", s + 1)
    o1, o2 = dim("o1"), dim("o2")
    g = sym("g", d1, d2, o1, o2)
    svds = []
    real = mf.svd

    def svd(*a, **k):
        r = real(*a, **k)
        svds.append((A.toarr(a[0]).copy(), r[1].copy(), r[0].copy(), r[2].copy()))
        return r
    split_kept()
    kw = {}
    if trunc:
        Dm = dim("Dmax")
        kw["Dmax"] = Dm
        if trunc == 2: kw["thresh"] = 0.125
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate, svd=svd):
        r = returned("two-site", call("two-site", m.applyTwoSiteGate, g, s, **kw))
    ensure_frame("two-site.gate-unchanged", g)
    nm, fam, mat, Z, b = m._gauge
    ensure("two-site.centre", m._position == s + 1)
    others("two-site.frame", m, fam, [s, s + 1], N)
    A1, A2, lam = m._tensors[s], m._tensors[s + 1], A.toarr(m._mat)
    K = A1.shape[1]
    ensure("two-site.reported-dimension", core.SBool(zint(r[1]) == zint(K)))
    ensure_eq("two-site.left-isometry", spec([A1, A.conj(A1)], ["abs", "acs"], "bc"), A.np_eye(A1.shape[1]))
    ensure_eq("two-site.right-isometry", spec([A2, A.conj(A2)], ["abs", "cbs"], "ac"), A.np_eye(A2.shape[0]))
    ensure_eq("two-site.centre-norm", spec([lam, A.conj(lam)], ["ab", "ab"], ""), A.toarr(1))
    ensure_shape("two-site.centre-shape", lam, (K, K))
    if "Dmax" in kw: ensure("two-site.limit", core.SBool(zint(K) <= zint(kw["Dmax"])))
    if len(svds) != 1: raise Unsupported("%d singular value decompositions" % len(svds))
    S = svds[0][1]
    full = S.shape[0]
    want = spec([fam[s], mat, fam[s + 1], g], ["abs", "bc", "cdt", "stxy"], "axdy")
    if T.deq(pint(full), pint(K)):
        n = A.norm(S)
        ensure_eq("two-site.amplitudes", spec([A1, lam, A2], ["abx", "bc", "cdy"], "axdy") * n * m._Z, want * Z)
        ensure_eq("two-site.no-weight", A.toarr(r[0]), A.np_sum(S[K:] * S[K:]))          # an empty sum
    else:
        # the kept part is the leading part of the decomposition, renormalised; the weight is the sum of the squares cut off
        ensure_eq("two-site.weight", A.toarr(r[0]), A.np_sum(S[K:] * S[K:]))
        k = sint("k")
        assume(k >= 0); assume(core.SBool(zint(k) < zint(K)))
        n = A.norm(S[0:K])
        ensure_eq("two-site.kept-values", lam, A.diag(S[0:K]) / n)
        # consequence of the decomposition X = U S V for the leading columns: U_k^+ X V_k^+ = S_k
        X, _, U, V = svds[0]
        Uk, Vk = U[:, 0:K], V[0:K, :]
        T.add_rule("U+XV+=S", spec([A.conj(Uk), X, A.conj(Vk)], ["xb", "xy", "cy"], "bc").v, A.diag(S[0:K]).v)
        # projection form: A1^+ theta A2^+ = the kept centre times the norm
        ensure_eq("two-site.projection", spec([A.conj(A1), want, A.conj(A2)], ["abx", "axdy", "cdy"], "bc"), lam * n)


R.group("two-site-gate", ["MPS.applyTwoSiteGate", "MPS.__applyTwoSiteGate__", "MPS.__tensor__", "mpsfunctions.svd"])(lambda: two_site(False))
R.group("two-site-gate.real-state", ["MPS.applyTwoSiteGate", "MPS.__applyTwoSiteGate__", "MPS.__tensor__", "mpsfunctions.svd"])(lambda: two_site(False, True))
for _t, _n in ((1, "two-site-gate.limit"), (2, "two-site-gate.limit+threshold")):
    R.group(_n, ["MPS.applyTwoSiteGate", "MPS.__applyTwoSiteGate__", "MPS.__tensor__", "mpsfunctions.svd"], maxpaths=1500)(lambda _t=_t: two_site(_t))


@R.fallback("two-site-gate.real-state", "N<=3, symbolic dimensions and entries, all centre positions")
@R.fallback("two-site-gate", "N<=3, symbolic dimensions and entries, all centre positions")
def _():
    mf = MF()
    mix("A", "g", Amat="A")
    c = C()
    N = 2 + c.choose(2)
    p, s = c.choose(N + 1), c.choose(N - 1)
    m, ts = concrete_mps(N, p, "A")
    v = amplitudes(m)
    g = sym("g", ts[s].shape[2], ts[s + 1].shape[2], dim("o1"), dim("o2"))
    split_kept()
    full = []
    real = mf.svd

    def svd(*a, **k):
        r = real(*a, **k)
        full.append((r[1].shape[0], r[1].copy()))
        return r
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate, svd=svd):
        call("two-site", m.applyTwoSiteGate, g, s)
    if len(full) != 1: raise Unsupported("%d singular value decompositions" % len(full))
    if not T.deq(pint(full[0][0]), pint(m._tensors[s].shape[1])): return      # something was cut off: group two-site-gate.truncated
    l = "abcdef"[:N]
    ensure_frame("two-site.bounded.gate-unchanged", g)
    ensure_eq("two-site.bounded.amplitudes", amplitudes(m) * A.norm(full[0][1]), spec([v, g], [l, l[s] + l[s + 1] + "xy"], l.replace(l[s], "x").replace(l[s + 1], "y")))


# ---- matrix product operators ---------------------------------------------------------------------------------------
def mpo_family(N, M):
    def w(k):
        k = SInt.mk(pint(k))
        if k == 0 or k == N: return 1
        return bonddim("M", k)

    def fn(p):
        q = SInt.mk(p)
        return sym("W[%s]" % p, w(q), w(q + 1), bonddim("d", q), bonddim("o", q))
    return VList.family(fn, N), w


def fuse(t, W, order):
    """site tensor times operator: bonds fused (state, operator) or (operator, state)"""
    r = spec([t, W], ["abs", "mnst"], "ambnt" if order == 0 else "manbt")
    s = r.shape
    return A.reshape(r, (s[0] * s[1], s[2] * s[3], s[4]))


@R.group("mpo.lists", ["mpsfunctions.applyMPO"])
def _():
    mf = MF()
    mix("A", "W")
    N = sint("N")
    assume(N >= 1)
    ts, b = obc_family("A", N, "a")
    W, w = mpo_family(N, "M")
    inplace = C().choose(2) == 1
    orig = ts
    src = VList.family(lambda q: orig[SInt.mk(q)], N) if inplace else ts
    sp = lambda k: fuse(orig[k], W[k], 0)
    inv = ListInv("mpo.lists", sp, target=src if inplace else None)
    C().data["loop_handler"] = lambda rng, locs, lid: inv.pick(rng, locs)
    got = call("applyMPO", mf.applyMPO, src, W, inplace) if inplace else call("applyMPO", mf.applyMPO, ts, W)
    ensure("mpo.lists.length", vl(got) == N)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure_eq("mpo.lists.site", got[j], sp(j))
    if inplace: C().ob("mpo.lists.in-place", got is src, "engine")
    else: C().ob("mpo.lists.frame", not ts.sym["over"] and all(t.version == 0 for t in ts.sym["cache"].values()), "engine", "input changed")
    C().ob("mpo.lists.operator-unchanged", not W.sym["over"] and all(t.version == 0 for t in W.sym["cache"].values()), "engine")


@R.fallback("mpo.lists", "N<=3, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "W")
    c = C()
    N = 1 + c.choose(3)
    ts = chain("A", N)
    W = mpo_chain(N)
    v = dense(list(ts))
    keep = list(ts)
    inplace = c.choose(2) == 1
    got = call("applyMPO", mf.applyMPO, ts, W, inplace)
    ensure_eq("mpo.lists.bounded", dense(list(got)), apply_dense(v, W))
    if not inplace: ensure_frame("mpo.lists.bounded.frame", *keep)


def mpo_chain(N):
    m = [1 if k in (0, N) else dim("M%d" % k) for k in range(N + 1)]
    return VList([sym("W%d" % k, m[k], m[k + 1], dim("d%d" % k), dim("o%d" % k)) for k in range(N)])


def apply_dense(v, W):
    N = len(W)
    labs = [["s%d" % k for k in range(N)]] + [["m%d" % k, "m%d" % (k + 1), "s%d" % k, "t%d" % k] for k in range(N)]
    r = Arr(T.einsum([v.v] + [w.v for w in W], labs, ["m0"] + ["t%d" % k for k in range(N)] + ["m%d" % N]))
    return A.reshape(r, tuple(A.shape(r)[1:-1]))


@R.group("mpo.lemma", ["(lemma) fused site tensors multiply out to operator times state"])
def _():
    """induction step: prefix . fused site = operator applied to the longer prefix, both bond orders"""
    P, Q, a, b, m, n, d, o = [dim(x) for x in ("P", "Q", "a", "b", "m", "n", "d", "o")]
    L, O = sym("L", P, a), sym("O", P, Q, m)          # prefix amplitudes, prefix operator
    t, W = sym("t", a, b, d), sym("W", m, n, d, o)
    for order in (0, 1):
        pre = spec([L, O], ["Pa", "PQm"], "Qam" if order == 0 else "Qma")
        pre = A.reshape(pre, (Q, a * m))
        got = spec([pre, fuse(t, W, order)], ["Qx", "xyt"], "Qty")
        want = spec([spec([L, t], ["Pa", "abs"], "Psb"), spec([O, W], ["PQm", "mnst"], "PsQtn")], ["Psb", "PsQtn"], "Qtbn" if order == 0 else "Qtnb")
        ensure_eq("mpo.lemma.step%d" % order, got, A.reshape(want, (Q, o, b * n)))


@R.group("mpo.state", ["MPS.applyMPO", "MPS.__applyMPO__", "MPS.__absorbCenterMatrix__"])
def _():
    mf = MF()
    mix("A", "W", Amat="A")
    m, p = some_state(at=lambda N: 0)
    N = m._N
    W, w = mpo_family(N, "M")
    st = {}

    class Inv(ListInv):
        def pick(s, rng, locs):
            if "fam" not in st:
                nm, fam, mat, Z, b = m._gauge
                st.update(fam=fam, mat=mat, Z=Z, b=b)
                s.target = m._tensors
                j = sint("j0")
                assume(j >= 0); assume(j < N)
                ensure("mpo.state.centre-left", m._position == 0)
                if j == 0: ensure_eq("mpo.state.absorbed", m._tensors[0], base(0))
                else: ensure_eq("mpo.state.rest", m._tensors[j], base(j))
            return s.begin(rng)

    def base(k):
        if k == 0: return spec([st["mat"], st["fam"][k]], ["ab", "bcs"], "acs")
        return st["fam"][k]
    inv = Inv("mpo.state", lambda k: fuse(base(k), W[k], 0), pre=lambda k: base(k))

    class Mat:
        fields = ("_mat",)

        def check(s, i, locs, phase):
            if phase != "init": ensure_eq("mpo.state.mat", m._mat, A.np_eye(1))

        def havoc(s, i, locs):
            m._mat = A.np_eye(1) if not (i == 0) else A.np_eye(m._mat.shape[0])
            return {}
    inv.extra = Mat()
    C().data["loop_handler"] = lambda rng, locs, lid: inv.pick(rng, locs)
    call("applyMPO", m.applyMPO, W)
    if "fam" not in st: raise Unsupported("no loop over the chain")
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure_eq("mpo.state.site", m._tensors[j], fuse(base(j), W[j], 0))
    ensure_eq("mpo.state.mat.final", m._mat, A.np_eye(1))
    ensure_eq("mpo.state.Z", A.toarr(m._Z), A.toarr(st["Z"]))
    ensure("mpo.state.position", m._position == 0)
    C().ob("mpo.state.operator-unchanged", not W.sym["over"] and all(t.version == 0 for t in W.sym["cache"].values()), "engine")


@R.fallback("mpo.state", "N<=3, symbolic dimensions and entries, all centre positions")
def _():
    mf = MF()
    mix("A", "W", Amat="A")
    c = C()
    N = 1 + c.choose(3)
    p = c.choose(N + 1)
    m, ts = concrete_mps(N, p, "A")
    v = amplitudes(m)
    W = mpo_chain(N)
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate):
        call("applyMPO", m.applyMPO, W)
    ensure_eq("mpo.state.bounded", amplitudes(m), apply_dense(v, W))
