from .rt import *


def shape_of(r):
    k = r.int(0, 5)
    l1, l2, d = r.int(1, 5), r.int(1, 5), r.int(1, 3)
    if k == 0: l1 = 1
    if k == 1: l2 = 1
    if k == 2: l1, l2 = r.int(1, 2), r.int(5, 12)       # wide
    if k == 3: l1, l2 = r.int(5, 12), r.int(1, 2)       # tall
    return l1, l2, d


def tensor_of(r, shape=None):
    sh = shape or shape_of(r)
    t = r.arr(sh)
    k = r.int(0, 5)
    if k == 0: t = t * r.pick(1e-6, 1e5)
    if k == 1 and sh[0] > 1: t[0] = t[1]                # rank deficient
    if k == 2: t = np.asfortranarray(t)
    if k == 3: t = np.ascontiguousarray(t.transpose(2, 1, 0)).transpose(2, 1, 0)
    r.note(shape=t.shape, cx=bool(np.iscomplexobj(t)), kind=k)
    return t


def mul_right(out, m): return np.tensordot(out, m, ([1], [0])).transpose(0, 2, 1)
def mul_left(m, out): return np.tensordot(m, out, ([1], [0]))


def sing(t, direction):
    a, b, d = t.shape
    m = t.transpose(0, 2, 1).reshape(a * d, b) if direction > 0 else t.reshape(a, b * d)
    return np.linalg.svd(m, compute_uv=False)


class svd_fails:
    """np.linalg.svd raises LinAlgError on its first call (the fault the fall-back path exists for)"""
    def __enter__(s):
        s.old = np.linalg.svd
        s.n = 0

        def f(*a, **k):
            s.n += 1
            if s.n == 1: raise np.linalg.LinAlgError("SVD did not converge")
            return s.old(*a, **k)
        np.linalg.svd = f
    def __exit__(s, *a): np.linalg.svd = s.old


class nothing:
    def __enter__(s): pass
    def __exit__(s, *a): pass


@case("C02", "prepareTensor", ["mpsfunctions.prepareTensor"], 2)
def _(r):
    mf = mfmod()
    t = tensor_of(r)
    t0 = t.copy()
    direction = r.pick(1, -1, 2, -3)
    fp = r.pick(None, None, "q", "r")
    r.note(dir=direction, fixphase=fp)
    out, m, Z = call("prepareTensor", mf.prepareTensor, t, direction, fixphase=fp)
    check(np.array_equal(t, t0), "input tensor modified")
    a, b, d = t.shape
    k = min(a * d, b) if direction > 0 else min(a, b * d)
    if direction > 0:
        check(out.shape == (a, k, d) and m.shape == (k, b), "shapes", out=out.shape, m=m.shape)
        close(mul_right(out, m) * Z, t, "reconstruction", tol=1e-10 * max(1, abs(Z)))
        check(left_err(out) < 1e-10, "not a left isometry", err=left_err(out))
    else:
        check(out.shape == (k, b, d) and m.shape == (a, k), "shapes", out=out.shape, m=m.shape)
        close(mul_left(m, out) * Z, t, "reconstruction", tol=1e-10 * max(1, abs(Z)))
        check(right_err(out) < 1e-10, "not a right isometry", err=right_err(out))
    close(np.linalg.norm(m), 1.0, "norm of the weight matrix")
    close(Z, np.linalg.norm(t), "returned norm", tol=1e-10)


@case("C02", "prepareTensorSVD", ["mpsfunctions.prepareTensorSVD", "mpsfunctions.svd"], 2)
def _(r):
    mf = mfmod()
    t = tensor_of(r)
    t0 = t.copy()
    direction = r.pick(1, -1)
    fp = r.coin(0.3)
    fault = r.coin(0.2)
    r.note(dir=direction, fixphase=fp, fault=fault)
    with (svd_fails() if fault else nothing()):
        out, s, v, Z = call("prepareTensorSVD", mf.prepareTensorSVD, t, direction, fixphase=fp)
    check(np.array_equal(t, t0), "input tensor modified")
    tol = 1e-10 * max(1, abs(Z))
    if direction > 0:
        close(mul_right(out, np.diag(s).dot(v)) * Z, t, "reconstruction", tol=tol)
        check(left_err(out) < 1e-10, "not a left isometry")
        close(v.dot(v.conj().T), np.eye(v.shape[0]), "v not an isometry")
    else:
        close(mul_left(v.dot(np.diag(s)), out) * Z, t, "reconstruction", tol=tol)
        check(right_err(out) < 1e-10, "not a right isometry")
        close(v.conj().T.dot(v), np.eye(v.shape[1]), "u not an isometry")
    check(np.all(s >= 0) and np.all(np.diff(s) <= 1e-14), "weights not non-negative and non-increasing", s=s)
    close(np.linalg.norm(s), 1.0, "weights not normalised")
    close(s * Z, sing(t, direction)[:len(s)], "weights are not the singular values", tol=tol)


@case("C02", "prepareTruncate", ["mpsfunctions.prepareTruncate"], 4)
def _(r):
    mf = mfmod()
    t = tensor_of(r)
    t0 = t.copy()
    direction = r.pick(1, -1)
    full = sing(t, direction)
    D = r.pick(None, None, 1, 2, 3, len(full), len(full) + 2)
    kth = r.int(0, 6)
    thresh = {0: 1e-32, 1: 0.0, 2: 1e-16, 3: 1e-10, 4: float(full[r.int(0, len(full) - 1)]) * r.pick(0.5, 0.999999, 1.0000001, 0.1),
              5: r.uni(0.01, 2.0), 6: float(full[0]) * r.pick(1.5, 0.9999999, 10.0)}[kth]
    fault = r.coin(0.15)
    r.note(dir=direction, D=D, thresh=thresh, fault=fault)
    kw = {}
    if D is not None or r.coin(): kw["D"] = D
    if kth != 0 or r.coin(): kw["thresh"] = thresh
    else: thresh = 1e-32
    if fault and min(full) < 1e-13: fault = False
    with (svd_fails() if fault else nothing()):
        res = call("prepareTruncate", mf.prepareTruncate, t, direction, **kw)
    check(np.array_equal(t, t0), "input tensor modified")
    keep = full if thresh <= 1e-16 else full[full > thresh]
    if np.any(np.abs(full - thresh) < 1e-11 * max(1, full[0])): raise Skip()
    k = len(keep) if D is None else min(D, len(keep))
    k = max(k, 1)
    want = full[:k]
    a, b, d = t.shape
    if direction > 0: out, s, v, Z = res
    else: v, s, out, Z = res
    check(len(s) == k, "number of retained values", got=len(s), want=k, spectrum=full)
    close(s, want / np.linalg.norm(want), "retained weights", tol=1e-8)
    close(Z, np.linalg.norm(full), "returned norm", tol=1e-10)
    sc = max(1, np.linalg.norm(full))
    if direction > 0:
        check(out.shape == (a, k, d) and v.shape == (k, b), "factor shapes", out=out.shape, v=v.shape)
        check(left_err(out) < 1e-9, "not a left isometry")
        close(v.dot(v.conj().T), np.eye(k), "v rows not orthonormal")
        rec = mul_right(out, np.diag(want).dot(v))
        proj = np.tensordot(out, np.tensordot(out.conj(), t, ([0, 2], [0, 2])), ([1], [0])).transpose(0, 2, 1)
    else:
        check(out.shape == (k, b, d) and v.shape == (a, k), "factor shapes", out=out.shape, v=v.shape)
        check(right_err(out) < 1e-9, "not a right isometry")
        close(v.conj().T.dot(v), np.eye(k), "u columns not orthonormal")
        rec = mul_left(v.dot(np.diag(want)), out)
        proj = np.tensordot(v.dot(v.conj().T), t, ([1], [0]))
    if k == len(full): close(rec, t, "reconstruction", tol=1e-9 * sc)
    else:
        err = np.linalg.norm(t - rec)
        close(err, np.linalg.norm(full[k:]), "truncation error", tol=1e-8 * sc)
    gap = k == len(full) or full[k - 1] - full[k] > 1e-6 * full[0]
    if gap and full[k - 1] > 1e-7 * full[0]: close(rec, proj, "factors do not belong to the leading weights", tol=1e-6 * sc)


@case("C02", "svd", ["mpsfunctions.svd"], 1)
def _(r):
    mf = mfmod()
    m = r.arr((r.int(1, 8), r.int(1, 8)))
    m0 = m.copy()
    fault = r.coin(0.4)
    r.note(shape=m.shape, fault=fault, cx=bool(np.iscomplexobj(m)))
    with (svd_fails() if fault else nothing()):
        u, s, v = call("svd", mf.svd, m, full_matrices=r.coin())
    k = min(m.shape)
    check(np.array_equal(m, m0), "input modified")
    check(u.shape == (m.shape[0], k) and s.shape == (k,) and v.shape == (k, m.shape[1]), "factor shapes", u=u.shape, s=s.shape, v=v.shape)
    close(u.dot(np.diag(s)).dot(v), m, "reconstruction")
    close(u.conj().T.dot(u), np.eye(k), "u")
    close(v.dot(v.conj().T), np.eye(k), "v")
    check(np.all(s >= 0) and np.all(np.diff(s) <= 1e-12), "ordering")


@case("C02", "qr", ["mpsfunctions.qr"], 0.7)
def _(r):
    mf = mfmod()
    n = r.int(1, 5)
    m = r.arr((n + r.int(0, 3), n), False)
    sf = r.pick("q", "r")
    r.note(shape=m.shape, fix=sf)
    q, rr = call("qr", mf.qr, m, sf)
    close(q.dot(rr), m, "reconstruction")
    close(q.conj().T.dot(q), np.eye(n), "q")
    close(rr, np.triu(rr), "r not upper triangular")
    dg = np.diag(q) if sf == "q" else np.diag(rr)
    check(np.all(dg > -1e-12), "sign of the diagonal", diag=dg)


@case("C02", "refusals", ["mpsfunctions.prepareTensor"], 0.2)
def _(r):
    mf = mfmod()
    t = tensor_of(r)
    refuses("direction 0", mf.prepareTensor, t, 0)
    refuses("direction 0", mf.prepareTensorSVD, t, 0)
    refuses("direction 0", mf.prepareTruncate, t, 0)


@case("C02", "fixPhase", ["mpsfunctions.fixPhase"], 0.3)
def _(r):
    mf = mfmod()
    n = r.int(1, 4)
    m = r.arr((n, n))
    if abs(np.trace(m)) < 1e-2: raise Skip()
    r.note(n=n)
    x = call("fixPhase", mf.fixPhase, m)
    close(np.linalg.norm(x), 1.0, "norm")
    t = np.trace(x)
    check(abs(np.imag(t)) < 1e-10 and np.real(t) > 0, "trace not positive", trace=t)
    close(x * np.trace(m) / t, m, "not proportional to the input", tol=1e-8)
