from .rt import *
from .C17 import tm, gap


def oracle(v, D, thr):
    """sequential truncation of the dense amplitudes, bonds from right to left: keep Schmidt values > thr, at most D, renormalise"""
    w = v / np.linalg.norm(v)
    N = w.ndim
    dims = []
    safe = True
    for k in range(N - 1, 0, -1):
        m = w.reshape(int(np.prod(w.shape[:k])), -1)
        u, s, vh = np.linalg.svd(m, full_matrices=False)
        n = len(s) if thr is None else max(1, int(np.sum(s > thr)))
        if thr is not None and np.any(np.abs(s - thr) < 1e-3 * thr): safe = False
        if D is not None: n = min(n, D)
        if n < len(s) and s[n - 1] - s[n] < 1e-6 * s[0] and s[n - 1] > 1e-10: safe = False
        dims.append(n)
        s = s[:n] / np.linalg.norm(s[:n])
        w = (u[:, :n] * s).dot(vh[:n]).reshape(v.shape)
    return w, dims[::-1], safe


@case("C19", "obc", ["MPS.truncate", "MPS.__truncate__", "MPS.__position__", "mpsfunctions.prepareTruncate"], 5)
def _(r):
    m = rstate(r, N=r.int(1, 6), Dmax=5)
    if r.coin():
        with quiet():
            ts = m.tolist()
            for t in ts[:-1]:
                for j in range(t.shape[1]): t[:, j, :] *= 0.3 ** j
            if np.linalg.norm(vec_list(ts)) < 1e-6: raise Skip()
            p = r.int(0, len(ts))
            m._tensors, m._mat, z = gauge(ts, p)
            m._position = p
    raw = r.coin(0.25)
    if raw:             # tensors that are no isometries: a state as it was set up, or a sum of states
        with quiet():
            if r.coin() and len(m) > 1:
                o = m.copy()
                o._Z = o._Z * r.uni(0.05, 0.5)
                for n in range(len(o)): o[n] = o[n] + 0.5 * r.arr(o[n].shape, np.iscomplexobj(o[n]))
                m = m + o
            else:
                m = mpsmod().MPS([t * r.uni(0.3, 3.0) + 0.3 * r.arr(t.shape, np.iscomplexobj(t)) for t in m.tolist()])
                m._Z = r.pick(1.0, 0.7, -2.0)
    N = len(m)
    m._D = r.int(2, 8)
    v = vec(m)
    nv = np.linalg.norm(v)
    if nv < 1e-6: raise Skip()
    D = None if r.coin(0.3) else r.int(1, 7)
    thr = r.pick(1e-16, 1e-10, 1e-3, 1e-2, 0.1, 0.3)
    grown = None
    if r.coin(0.2):     # bond dimensions grown beyond the recorded limit by an operator
        W = rmpo(r, N, m.d, 3, cx=False)
        with quiet(): m.applyMPO(hmod().MPO.fromlist(W))
        with quiet(): m.position(N); m.position(r.int(0, N))
        grown = True
        v = vec(m)
        nv = np.linalg.norm(v)
        if nv < 1e-6: raise Skip()
    r.note(D=D, thr=thr, lim=m._D, grown=grown, raw=raw)
    want, dims, safe = oracle(v, D, thr if thr > 1e-15 else None)
    same = thr <= 1e-15 and (D is None or D >= max(max(t.shape[:2]) for t in m._tensors))
    call("truncate", m.truncate, schmidt_thresh=thr, D=D)
    for k in range(1, N):
        a, b = m._tensors[k - 1].shape[1], m._tensors[k].shape[0]
        if k != m._position: check(a == b, "bond dimensions of neighbouring tensors differ", bond=k, got=(a, b))
        if D is not None: check(max(a, b) <= max(D, 1), "bond dimension above the limit", bond=k, got=(a, b), limit=D)
    if same and raw:    # nothing to truncate: the state may be left as it is (it was in no canonical form)
        close(vec(m), v, "represented state when nothing is truncated", tol=1e-8 * max(1, nv))
        return
    s = m._position
    for k in range(s): check(left_err(m._tensors[k]) < 1e-8, "tensor left of the centre is not a left isometry after truncation", site=k)
    for k in range(s, N): check(right_err(m._tensors[k]) < 1e-8, "tensor right of the centre is not a right isometry after truncation", site=k)
    close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix after truncation")
    w = vec(m)
    if not safe: return
    close(w / np.linalg.norm(w), want, "state after truncation", tol=1e-7)
    if thr > 1e-13:
        for k in range(1, N): check(min(m._tensors[k].shape[0], m._tensors[k - 1].shape[1]) == dims[k - 1], "number of Schmidt values kept", bond=k, got=m._tensors[k].shape[0], want=dims[k - 1])
    if np.max(np.abs(want - v / nv)) < 1e-12:
        close(w, v, "represented state when nothing is truncated", tol=1e-8 * max(1, nv))


@case("C19", "position-truncation", ["MPS.position", "MPS.__position__"], 3)
def _(r):
    """truncating while moving the centre over one bond keeps the dominant Schmidt values of that bond"""
    m = rstate(r, N=r.int(2, 6), Dmax=5)
    N = len(m)
    v = vec(m)
    nv = np.linalg.norm(v)
    old = m._position
    b = old + r.pick(1, -1)
    if not 1 <= b <= N - 1: raise Skip()
    D = r.int(1, 4)
    r.note(to=b, D=D)
    M = v.reshape(int(np.prod(v.shape[:b])), -1)
    u, s, vh = np.linalg.svd(M / nv, full_matrices=False)
    n = min(D, len(s))
    if n < len(s) and s[n - 1] - s[n] < 1e-6: raise Skip()
    call("position", m.position, b, D=D)
    check(m._mat.shape[0 if b < old else 1] <= D or m._mat.shape[1 if b < old else 0] <= D, "bond dimension above the limit", got=m._mat.shape)
    dim = m._tensors[b - 1].shape[1] if b > old else m._tensors[b].shape[0]
    check(dim <= D, "bond dimension above the limit", got=dim, limit=D)
    want = (u[:, :n] * (s[:n] / np.linalg.norm(s[:n]))).dot(vh[:n]).reshape(v.shape)
    w = vec(m)
    close(w / np.linalg.norm(w) * np.exp(1j * 0), want, "state after a truncating step", tol=1e-8)


@case("C19", "list", ["mpsfunctions.truncateMPS", "mpsfunctions.orthonormalizeQR"], 2)
def _(r):
    N = r.int(1, 6)
    cx = r.coin()
    ts = rtensors(r, N, [r.int(1, 3) for _ in range(N)], 5, cx)
    D = r.int(1, 7)
    r.note(N=N, cx=cx, D=D, dims=[t.shape[0] for t in ts])
    v = vec_list(ts)
    nv = np.linalg.norm(v)
    if nv < 1e-6: raise Skip()
    # sweep left to right
    w = v / nv
    safe = True
    for k in range(1, N):
        u, s, vh = np.linalg.svd(w.reshape(int(np.prod(w.shape[:k])), -1), full_matrices=False)
        n = min(D, len(s))
        if n < len(s) and s[n - 1] - s[n] < 1e-6 * s[0] and s[n - 1] > 1e-10: safe = False
        w = (u[:, :n] * (s[:n] / np.linalg.norm(s[:n]))).dot(vh[:n]).reshape(v.shape)
    lams = call("truncateMPS", mfmod().truncateMPS, ts, D)
    for k in range(1, N):
        check(ts[k].shape[0] == ts[k - 1].shape[1] <= D, "bond dimension above the limit", bond=k, got=ts[k].shape[0], limit=D)
        close(np.linalg.norm(lams[k - 1]), 1.0, "norm of the returned Schmidt values")
        check(np.all(np.diff(lams[k - 1]) <= 1e-12), "order of the returned Schmidt values")
    for k in range(N - 1): check(left_err(ts[k]) < 1e-8, "tensor is not a left isometry after truncation", site=k)
    if safe: close(vec_list(ts), w, "normalised state after truncation", tol=1e-7)


@case("C19", "infinite", ["MPS.truncate", "MPS.__truncate__", "mpsfunctions.regaugeIMPS"], 3)
def _(r):
    """truncating an infinite state: dimensions within the limits, isometric cell, connecting matrices inverse to each other;
    nothing below the limits: the same state per cell"""
    M = mpsmod()
    N = r.int(1, 4)
    cx = r.coin()
    D = r.int(2, 5)
    ts = [r.arr((D, D, 2), cx) for _ in range(N)]
    if r.coin():
        for t in ts:
            for j in range(D): t[:, j, :] *= 0.5 ** j
    m = M.MPS([t.copy() for t in ts])
    m._D = D
    e0, g = gap(ts)
    if g > 0.95: raise Skip()
    with quiet(): m.position(r.int(0, N))
    lim = r.pick(None, D, max(2, D - 1), 2, 1)
    thr = r.pick(1e-16, 1e-12, 1e-6, 1e-3, 1e-3, 0.3, 0.9) if lim is None or lim == D else r.pick(1e-12, 1e-6, 0.9)
    rg = r.pick(None, None, "left", "right", "symmetric")
    r.note(N=N, cx=cx, D=D, lim=lim, thr=thr, gauge=rg)
    from .C18 import cond
    if cond(ts) < 1e-4: raise Skip()
    call("truncate", m.truncate, schmidt_thresh=thr, D=lim, returned_gauge=rg)
    for k in range(N):
        check(m._tensors[k].shape[0] == m._tensors[k - 1].shape[1], "bond dimensions of neighbouring tensors differ", site=k)
        if lim is not None: check(m._tensors[k].shape[0] <= lim, "bond dimension above the limit", site=k, got=m._tensors[k].shape[0], limit=lim)
        if rg == "right": check(right_err(m._tensors[k]) < 1e-5, "tensor is not a right isometry", site=k)
        else: check(left_err(m._tensors[k]) < 1e-5, "tensor is not a left isometry", site=k)
    check(m._position == (0 if rg == "right" else N), "centre position", got=m._position)
    Dn = m._mat.shape[0]
    check(m._mat.shape == (Dn, Dn) == m._connector.shape and Dn == m._tensors[0].shape[0], "shape of the connecting matrices")
    close(m._mat.dot(m._connector), np.eye(Dn), "connector is the inverse of the centre matrix", tol=1e-8)
    close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix")
    if thr <= 1e-12 and (lim is None or lim == D):
        f = np.max(np.abs(np.linalg.eigvals(tm(ts, m._tensors)))) / np.sqrt(e0)
        close(f, 1.0, "fidelity per cell when nothing is truncated", tol=1e-5)
