"""C02: tensor splits reconstruct their input and obey the truncation limits."""
from .base import *
R = Registry()


def iso_left(name, q):
    n = q.ndim
    e = spec([q, A.conj(q)], ["abs", "acs"], "bc") if n == 3 else spec([q, A.conj(q)], ["ab", "ac"], "bc")
    ensure_eq(name, e, A.np_eye(q.shape[1]))


def iso_right(name, q):
    n = q.ndim
    e = spec([q, A.conj(q)], ["abs", "cbs"], "ac") if n == 3 else spec([q, A.conj(q)], ["ab", "cb"], "ac")
    ensure_eq(name, e, A.np_eye(q.shape[0]))


def fro2(m):
    l = "abcd"[:m.ndim]
    return spec([m, A.conj(m)], [l, l], "")


def site():
    a, b, s = dim("a"), dim("b"), dim("s")
    return sym("T", a, b, s), a, b, s


@R.group("prepareTensor", ["mpsfunctions.prepareTensor"])
def _():
    mf = MF()
    T_, a, b, s = site()
    fix = [None, "q", "r"][C().choose(3)]
    d = C().choose(2)
    if d:
        q, r, Z = returned("prepareTensor", call("prepareTensor", mf.prepareTensor, T_, 1, fix))
        iso_left("prepareTensor.left.isometry", q)
        ensure_shape("prepareTensor.left.shape", q, (a, r.shape[0], s))
        ensure("prepareTensor.left.bond", r.shape[0] <= b)
        ensure_eq("prepareTensor.left.reconstruct", spec([q, r], ["axs", "xb"], "abs") * Z, T_)
    else:
        q, r, Z = returned("prepareTensor", call("prepareTensor", mf.prepareTensor, T_, -1, fix))
        iso_right("prepareTensor.right.isometry", q)
        ensure_shape("prepareTensor.right.shape", q, (r.shape[1], b, s))
        ensure("prepareTensor.right.bond", r.shape[1] <= a)
        ensure_eq("prepareTensor.right.reconstruct", spec([r, q], ["ax", "xbs"], "abs") * Z, T_)
    ensure_eq("prepareTensor.norm", fro2(r), A.toarr(1))
    ensure_frame("prepareTensor.frame", T_)


@R.group("prepareTensor.direction", ["mpsfunctions.prepareTensor"])
def _():
    mf = MF()
    T_, a, b, s = site()
    ensure_raises("prepareTensor.direction0", lambda: mf.prepareTensor(T_, 0))
    ensure_raises("prepareTruncate.direction0", lambda: mf.prepareTruncate(T_, 0))


@R.group("svd", ["mpsfunctions.svd"])
def _():
    mf = MF()
    m, n = dim("m"), dim("n")
    X = sym("X", m, n)
    C().data["svd_may_fail"] = True
    u, s, v = returned("svd", call("svd", mf.svd, X))
    k = s.shape[0]
    ensure_shape("svd.u", u, (m, k))
    ensure_shape("svd.v", v, (k, n))
    iso_left("svd.u.isometry", u)
    iso_right("svd.v.isometry", v)
    ensure_eq("svd.reconstruct", spec([u, s, v], ["ak", "k", "kb"], "ab"), X)
    ensure_frame("svd.frame", X)


@R.group("prepareTensorSVD", ["mpsfunctions.prepareTensorSVD"])
def _():
    mf = MF()
    T_, a, b, s = site()
    fix = C().choose(2) == 1
    d = C().choose(2)

    def callee(mat, full_matrices=False, r_thresh=1e-14):
        return A.lin_svd(mat, full_matrices=False)
    with patched(mf, svd=callee):
        out, w, x, Z = returned("prepareTensorSVD", call("prepareTensorSVD", mf.prepareTensorSVD, T_, 1 if d else -1, fix))
    descending("prepareTensorSVD.weights", w, Z)
    if d:
        iso_left("prepareTensorSVD.left.isometry", out)
        iso_right("prepareTensorSVD.left.v", x)
        ensure_eq("prepareTensorSVD.left.reconstruct", spec([out, w, x], ["axs", "x", "xb"], "abs") * Z, T_)
    else:
        iso_right("prepareTensorSVD.right.isometry", out)
        iso_left("prepareTensorSVD.right.u", x)
        ensure_eq("prepareTensorSVD.right.reconstruct", spec([x, w, out], ["ax", "x", "xbs"], "abs") * Z, T_)
    ensure_eq("prepareTensorSVD.norm", fro2(w), A.toarr(1))
    ensure_frame("prepareTensorSVD.frame", T_)


def thesvd():
    return C().data["svds"][-1]


def descending(name, w, scale=None):
    """the vector is a leading part of the singular values of the last decomposition, times a positive factor"""
    c = C()
    nm = thesvd()
    S = T.TSym.reg["S" + nm]
    full = Arr(T.symbol("S" + nm, (SInt.mk(S.dims[0]),), False))
    K = w.shape[0]
    lead = full[0:K]
    if scale is None:
        nrm = A.norm(lead)
        ensure_eq(name, w * nrm, lead)
        return full, nrm
    ensure_eq(name, w * scale, lead)
    return full, scale


@R.group("prepareTruncate", ["mpsfunctions.prepareTruncate"])
def _():
    mf = MF()
    c = C()
    T_, a, b, s = site()
    d = c.choose(2)
    useD = c.choose(2)
    useT = c.choose(2)
    D = None
    if useD:
        D = sint("D")
        assume(D >= 1)
    thr = posreal("thresh") if useT else 0.0
    c.data["svd_may_fail"] = True
    kept = []
    c.data["onkept"] = lambda cnt, t, dd: kept.append((cnt, t, dd))
    r = returned("prepareTruncate", call("prepareTruncate", mf.prepareTruncate, T_, 1 if d else -1, D, thr))
    if d: out, w, x, Z = r
    else: x, w, out, Z = r
    K = w.shape[0]
    full, nrm = descending("prepareTruncate.leading-singular-values", w)
    k = full.shape[0]
    # number retained: as many as exceed the threshold, at least one, at most D
    cnt = kept[-1][0] if kept else k
    if kept:
        ensure_eq("prepareTruncate.threshold", A.toarr(kept[-1][1]), A.toarr(thr))
        ensure("prepareTruncate.threshold-over-all", SInt.mk(kept[-1][2]) == k)
    want = cnt
    if want < 1: want = 1
    if D is not None and D < want: want = D
    ensure("prepareTruncate.number-kept", K == want if isinstance(K == want, core.SBool) else bool(K == want))
    ensure("prepareTruncate.at-least-one", K >= 1)
    if D is not None: ensure("prepareTruncate.at-most-D", K <= D)
    if useT and not kept: ensure("prepareTruncate.threshold-used", thr <= 1e-16)
    ensure_eq("prepareTruncate.norm", fro2(w), A.toarr(1))
    ensure_eq("prepareTruncate.Z", Z, A.norm(full))
    if d:
        ensure_shape("prepareTruncate.left.out", out, (a, K, s))
        ensure_shape("prepareTruncate.left.v", x, (K, b))
        iso_left("prepareTruncate.left.isometry", out)
        iso_right("prepareTruncate.left.v-isometry", x)
        if deqd(K, k): ensure_eq("prepareTruncate.left.reconstruct", spec([out, w, x], ["axs", "x", "xb"], "abs") * nrm, T_)
    else:
        ensure_shape("prepareTruncate.right.out", out, (K, b, s))
        ensure_shape("prepareTruncate.right.u", x, (a, K))
        iso_right("prepareTruncate.right.isometry", out)
        iso_left("prepareTruncate.right.u-isometry", x)
        if deqd(K, k): ensure_eq("prepareTruncate.right.reconstruct", spec([x, w, out], ["ax", "x", "xbs"], "abs") * nrm, T_)
    ensure_frame("prepareTruncate.frame", T_)


def deqd(x, y):
    return bool(x == y)


@R.group("fixPhase", ["mpsfunctions.fixPhase"])
def _():
    mf = MF()
    n = dim("n")
    X = sym("X", n, n)
    x0 = A.toarr(X)
    got = returned("fixPhase", call("fixPhase", mf.fixPhase, X))
    t = A.trace(x0)
    # a positive multiple of X / tr X with unit Frobenius norm
    ensure_eq("fixPhase.norm", fro2(got), A.toarr(1))
    ensure_eq("fixPhase.ray", spec([got, x0], ["ab", "cd"], "abcd"), spec([x0, got], ["ab", "cd"], "abcd"))
    ensure_frame("fixPhase.frame", X)


@R.group("qr", ["mpsfunctions.qr"])
def _():
    mf = MF()
    m, n = dim("m"), dim("n")
    X = sym("Xr", m, n, cx=False)
    fix = ["q", "r"][C().choose(2)]
    q, r = returned("qr", call("qr", mf.qr, X, fix))
    iso_left("qr.isometry", q)
    ensure_eq("qr.reconstruct", spec([q, r], ["ak", "kb"], "ab"), X)
    ensure_frame("qr.frame", X)
