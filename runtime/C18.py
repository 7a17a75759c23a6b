from .rt import *
from .C17 import tm, gap
es = np.einsum


def rcell(r, N, cx, Dlo=2, Dhi=4, mixed=False):
    d = r.int(2, 3)
    D = [r.int(Dlo, Dhi) for _ in range(N)]
    D.append(D[0])
    cxs = [cx and not (mixed and r.coin()) for k in range(N)]       # mixed: real and complex tensors in one cell
    return [r.arr((D[k], D[k + 1], d), cxs[k]) * r.uni(0.4, 1.5) for k in range(N)]


def prod(ts, words):
    out = []
    for w in words:
        x = np.eye(ts[0].shape[0])
        for k, s in enumerate(w): x = x.dot(ts[k][:, :, s])
        out.append(x)
    return out


def check_gauge(old, new, what, tol=1e-5):
    """new = c * X old X^-1 on the cell boundary: same state per cell, same transfer spectrum up to c^2 > 0, and explicit X"""
    w0 = np.linalg.eigvals(tm(old, old))
    w1 = np.linalg.eigvals(tm(new, new))
    m0, m1 = np.max(np.abs(w0)), np.max(np.abs(w1))
    close(m1, 1.0, what + ": dominant eigenvalue of the transfer matrix", tol=tol)
    M = tm(old, new) / np.sqrt(m0 * m1)
    f, V = np.linalg.eig(M)
    j = np.argmax(np.abs(f))
    close(f[j], 1.0, what + ": mixed transfer matrix eigenvalue (same state, positive factor)", tol=tol)
    check(old[0].shape[0] == new[0].shape[0], what + ": boundary dimension", got=new[0].shape)
    # the gauge matrix: right fixed point of the mixed transfer matrix intertwines after removing new's own density
    D = old[0].shape[0]
    N, d = len(old), [t.shape[2] for t in old]
    rs = np.random.RandomState(1)
    words = [tuple(rs.randint(0, x) for x in d) for _ in range(4 * D + 4)]
    P, Q = prod(old, words), prod(new, words)
    # solve X P_w = c' Q_w X for X (c' = 1/sqrt(m0) positive):  (1 kron P^T - ...) via null space
    A = np.vstack([np.kron(np.eye(D), p.T / np.sqrt(m0)) - np.kron(q / np.sqrt(m1), np.eye(D)) for p, q in zip(P, Q)])
    u, s, vh = np.linalg.svd(A)
    check(s[-1] < tol * max(1.0, s[0]), what + ": not related to the original by a gauge matrix on the cell boundary", smallest=s[-1])
    X = vh[-1].conj().reshape(D, D)
    sx = np.linalg.svd(X, compute_uv=False)
    check(sx[-1] > 1e-10, what + ": gauge matrix is singular", sv=sx)


def cond(ts):
    """conditioning of the gauge: smallest Schmidt value of the cell boundary (own dense computation)"""
    from .C22 import fixedpoint
    l, _ = fixedpoint(1, ts)
    rr, _ = fixedpoint(-1, ts)
    a, b = np.linalg.eigvalsh(l), np.linalg.eigvalsh(rr)
    return min(a[0] / a[-1], b[0] / b[-1])


@case("C18", "cell-left-right", ["mpsfunctions.regaugeIMPS", "mpsfunctions.UnitcellTMeigs"], 3)
def _(r):
    mf, M = mfmod(), mpsmod()
    N = r.int(1, 4)
    cx = r.coin()
    ts = rcell(r, N, cx, Dlo=r.pick(1, 2), Dhi=r.pick(2, 4, 4), mixed=r.coin(0.4)) if r.coin(0.8) else rcell(r, N, cx, 1, 1)
    g = r.pick("left", "right")
    r.note(N=N, cx=cx, gauge=g, D=[t.shape[0] for t in ts])
    if gap(ts)[1] > 0.95 or cond(ts) < 1e-4: raise Skip()
    arg = M.MPS([t.copy() for t in ts]) if r.coin(0.3) else [t.copy() for t in ts]
    lam = call("regaugeIMPS", mf.regaugeIMPS, arg, g, nmaxit=100000, tol=1e-13)
    new = [np.array(arg[k]) for k in range(N)]
    for k in range(N):
        e = left_err(new[k]) if g == "left" else right_err(new[k])
        check(e < 1e-6, "regaugeIMPS(%s): tensor is not an isometry" % g, site=k, err=e)
    check_gauge(ts, new, "regaugeIMPS(%s)" % g)
    D = new[0].shape[0]
    close(lam, np.eye(D) / np.sqrt(D), "regaugeIMPS(%s): returned bond matrix" % g, tol=1e-10)


@case("C18", "cell-symmetric", ["mpsfunctions.regaugeIMPS", "mpsfunctions.UnitcellTMeigs"], 3)
def _(r):
    mf = mfmod()
    N = r.int(1, 4)
    cx = r.coin()
    ts = rcell(r, N, cx, Dlo=r.pick(1, 2), Dhi=r.pick(2, 4, 4), mixed=r.coin(0.4)) if r.coin(0.8) else rcell(r, N, cx, 1, 1)
    r.note(N=N, cx=cx, gauge="symmetric", D=[t.shape[0] for t in ts])
    if gap(ts)[1] > 0.95 or cond(ts) < 1e-4: raise Skip()
    arg = [t.copy() for t in ts]
    lam = call("regaugeIMPS", mf.regaugeIMPS, arg, "symmetric", nmaxit=100000, tol=1e-13)
    new = [np.array(t) for t in arg]
    check_symmetric(ts, new, lam, "regaugeIMPS(symmetric)")


def check_symmetric(ts, new, lam, what, tol=1e-5):
    lam = np.asarray(lam)
    check(lam.ndim == 2 and lam.shape == (new[-1].shape[1], new[0].shape[0]), what + ": shape of the bond matrix", got=lam.shape)
    close(lam, np.diag(np.diag(lam)), what + ": bond matrix is diagonal", tol=1e-10)
    dl = np.diag(lam)
    check(np.all(np.abs(np.imag(dl)) < 1e-12) and np.all(np.real(dl) >= 0), what + ": bond matrix is non-negative", lam=dl)
    close(np.linalg.norm(dl), 1.0, what + ": norm of the bond matrix")
    for k in range(len(new)): check(left_err(new[k]) < tol, what + ": tensor is not a left isometry", site=k, err=left_err(new[k]))
    check_gauge(ts, new, what, tol=tol)
    # lam turns the left form into the right one: the cell  lam^-1 A1..AN lam  is right-isometric
    x = new[0]
    c = np.tensordot(np.diag(1 / dl), new[0], ([1], [0]))
    cell = [c] + [t for t in new[1:]]
    cell[-1] = np.tensordot(cell[-1], lam, ([1], [0])).transpose(0, 2, 1)
    D = len(dl)
    t = np.eye(D)
    for a in reversed(cell): t = es("bd,abs,cds->ac", t, a, a.conj())
    close(t, np.eye(D), what + ": the bond matrix turns the left form into the right form", tol=tol * 10)


@case("C18", "object", ["MPS.regauge", "MPS.__regauge__", "MPS.__absorbCenterMatrix__", "MPS.__absorbConnector__"], 3)
def _(r):
    M = mpsmod()
    N = r.int(1, 4)
    cx = r.coin()
    D = r.int(2, 4)
    ts = [r.arr((D, D, 2), cx) for _ in range(N)]
    m = M.MPS([t.copy() for t in ts])
    m._D = D
    g = r.pick("left", "right", "symmetric")
    p = r.int(0, N)
    q = r.int(0, N) if r.coin(0.3) else None
    r.note(N=N, cx=cx, gauge=g, D=D, pos=p, pos2=q)
    if gap(ts)[1] > 0.95 or cond(ts) < 1e-4: raise Skip()
    with quiet():
        if q is not None: m.regauge(r.pick("left", "right", "symmetric"))
        if q is not None: m.position(q)
        m.position(p)
    call("regauge", m.regauge, g, tol=1e-13) if r.coin(0.7) else call("regauge", m.regauge, g)
    new = [np.array(t) for t in m._tensors]
    check(m._position == (0 if g == "right" else N), "centre position after regauging", got=m._position)
    for k in range(N):
        e = right_err(new[k]) if g == "right" else left_err(new[k])
        check(e < 1e-5, "regauge(%s): tensor is not an isometry" % g, site=k, err=e)
    full = [t.copy() for t in new]
    if g == "right": full[0] = np.tensordot(m._mat, full[0], ([1], [0]))
    else: full[-1] = np.tensordot(full[-1], m._mat, ([1], [0])).transpose(0, 2, 1)
    full[-1] = np.tensordot(full[-1], m._connector, ([1], [0])).transpose(0, 2, 1)
    close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix")
    close(m._mat.dot(m._connector), np.eye(D), "connector is the inverse of the centre matrix", tol=1e-6)
    check_gauge(ts, full, "regauge(%s)" % g)
    if g == "symmetric": check_symmetric(ts, new, m._mat, "regauge(symmetric)")


@case("C18", "open-boundary-untouched", ["MPS.__regauge__"], 0.3)
def _(r):
    m = rstate(r)
    s = snapshot(m)
    call("regauge", m.regauge, r.pick("left", "right", "symmetric"))
    same_snapshot(m, s, "regauging an open-boundary state")


@case("C18", "single-tensor", ["mpsfunctions.regauge", "mpsfunctions.TMeigs"], 3)
def _(r):
    mf = mfmod()
    D = r.pick(1, 2, 3, 4, 5)
    cx = r.coin()
    d = r.int(2, 3)
    A = r.arr((D, D, d), cx) * r.uni(0.3, 2.0)
    g = r.pick("left", "right", "symmetric")
    r.note(D=D, cx=cx, d=d, gauge=g)
    if gap([A])[1] > 0.95 or cond([A]) < 1e-4: raise Skip()
    A0 = A.copy()
    np.random.seed(r.int(0, 10 ** 6))
    out = call("regauge", mf.regauge, A, g, tol=1e-13)
    check(np.array_equal(A, A0), "regauge(%s): caller's tensor modified" % g)
    e0 = gap([A0])[0]
    if g != "symmetric":
        B, y = out
        e = left_err(B) if g == "left" else right_err(B)
        check(e < 1e-6, "regauge(%s): tensor is not an isometry" % g, err=e)
        check_gauge([A0], [B], "regauge(%s)" % g)
        # the returned factor is the gauge matrix: B y^T = y^T A/sqrt(eta) (left), x B = A/sqrt(eta) x (right)
        for s in range(d):
            if g == "left": close(B[:, :, s].dot(y.T), y.T.dot(A0[:, :, s]) / np.sqrt(e0), "regauge(left): returned gauge factor", tol=1e-6)
            else: close(y.dot(B[:, :, s]), A0[:, :, s].dot(y) / np.sqrt(e0), "regauge(right): returned gauge factor", tol=1e-6)
    else:
        G, lam, rest = out
        check(np.all(np.real(lam) >= 0), "regauge(symmetric): negative Schmidt value")
        close(np.linalg.norm(lam), 1.0, "regauge(symmetric): norm of the Schmidt values")
        B = np.tensordot(np.diag(lam), G, ([1], [0]))
        C = np.tensordot(G, np.diag(lam), ([1], [0])).transpose(0, 2, 1)
        check(left_err(B) < 1e-6, "regauge(symmetric): lam*Gamma is not a left isometry", err=left_err(B))
        check(right_err(C) < 1e-5, "regauge(symmetric): Gamma*lam is not a right isometry", err=right_err(C))
        check_gauge([A0], [B], "regauge(symmetric)")
        close(np.asarray(rest), np.asarray(0.0), "regauge(symmetric): truncated weight without truncation", tol=1e-12)
