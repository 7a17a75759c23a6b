from .rt import *


@case("C01", "position-sequence", ["MPS.__position__", "MPS.position", "mpsfunctions.prepareTensor"], 4)
def _(r):
    m = rstate(r, Nmax=6)
    N = len(m)
    thr_default = r.coin(0.8)
    if r.coin(0.3): m._schmidt_thresh = r.pick(1e-16, 0.0, 5e-16)
    v = vec(m)
    nv = np.linalg.norm(v)
    for _ in range(r.int(1, 4)):
        b = r.int(0, N)
        old = m._position
        before = [t.copy() for t in m._tensors]
        r.note(to=b)
        if thr_default: call("position", m.position, b)
        else: call("position", m.position, b, schmidt_thresh=r.pick(0.0, 1e-16, 9e-16), r_thresh=r.pick(1e-14, 1e-13))
        check(m._position == b and m.pos == b, "centre not at the requested bond", got=m._position, want=b)
        close(vec(m), v, "amplitudes after moving the centre from %d to %d" % (old, b), tol=1e-9 * max(1, nv))
        lo, hi = min(old, b), max(old, b)
        for n in range(N):
            if lo <= n < hi:
                e = left_err(m._tensors[n]) if b > old else right_err(m._tensors[n])
                check(e < 1e-9, "passed tensor is not an isometry", site=n, err=e)
            else:
                check(before[n].shape == m._tensors[n].shape and np.array_equal(before[n], m._tensors[n]), "tensor outside the traversed range changed", site=n)
        close(np.linalg.norm(m._mat), 1.0, "Frobenius norm of the centre matrix")


@case("C01", "position-raw-state", ["MPS.__position__"], 2)
def _(r):
    m = rstate(r, raw=True, Nmax=6)
    N = len(m)
    v = vec(m)
    if np.linalg.norm(v) < 1e-10: raise Skip()
    old = m._position
    b = r.int(0, N)
    r.note(to=b)
    call("position", m.position, b)
    close(vec(m), v, "amplitudes of a general state after moving the centre", tol=1e-9 * max(1, np.linalg.norm(v)))
    for n in range(min(old, b), max(old, b)):
        e = left_err(m._tensors[n]) if b > old else right_err(m._tensors[n])
        check(e < 1e-9, "passed tensor is not an isometry", site=n, err=e)
    if b != old: close(np.linalg.norm(m._mat), 1.0, "Frobenius norm of the centre matrix")


@case("C01", "position-rank-deficient", ["MPS.__position__"], 1)
def _(r):
    # product states in over-sized bonds, zero blocks, weights spanning many orders of magnitude
    m = rstate(r, raw=True, Nmax=5)
    N = len(m)
    for n in range(N):
        t = m._tensors[n]
        if r.coin(): t[r.int(0, t.shape[0] - 1), :, r.int(0, t.shape[2] - 1)] *= r.pick(0.0, 1e-3, 1e-7, 1e-11)
        if r.coin(0.3): t[:, r.int(0, t.shape[1] - 1), :] *= r.pick(0.0, 1e-9)
    v = vec(m)
    nv = np.linalg.norm(v)
    if nv < 1e-8: raise Skip()
    b = r.int(0, N)
    call("position", m.position, b)
    r.note(to=b)
    close(vec(m), v, "amplitudes of a rank-deficient state", tol=1e-9 * max(1, nv))


@case("C01", "truncating-form-without-truncation", ["MPS.__position__", "mpsfunctions.prepareTruncate"], 2)
def _(r):
    # the singular-value branch with a bond limit that is never reached
    m = rstate(r, Nmax=5)
    N = len(m)
    v = vec(m)
    old = m._position
    b = r.int(0, N)
    r.note(to=b, Dlarge=True)
    call("position", m.position, b, D=r.pick(100, 64))
    check(m._position == b, "centre not at the requested bond")
    close(vec(m), v, "amplitudes (singular-value branch, nothing to truncate)", tol=1e-8 * max(1, np.linalg.norm(v)))
    for n in range(min(old, b), max(old, b)):
        e = left_err(m._tensors[n]) if b > old else right_err(m._tensors[n])
        check(e < 1e-8, "passed tensor is not an isometry", site=n, err=e)
    close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix")


@case("C01", "periodic-unit-cell", ["MPS.__position__"], 1)
def _(r):
    # unit cell with periodic bonds: the open-ended tensor product T0..mat..TN-1 is preserved
    M = mpsmod()
    N = r.int(1, 4)
    ds = [r.int(1, 3) for _ in range(N)]
    cx = r.coin()
    ts = rtensors(r, N, ds, 4, cx, obc=False)
    m = M.MPS(ts)
    m._obc = False
    m._Z = r.scalar(False)
    m._position = p = r.int(0, N)
    D = ts[p].shape[0] if p < N else ts[p - 1].shape[1]
    m._mat = r.arr((D, D), cx)

    def cell(m):
        ts = [t for t in m._tensors]
        acc = np.eye(m._mat.shape[0]) if m._position == 0 else None
        out = None
        for k in range(N + 1):
            if k == m._position: out = m._mat if out is None else np.tensordot(out, m._mat, ([out.ndim - 1], [0]))
            if k < N:
                t = ts[k].transpose(0, 2, 1)
                out = t if out is None else np.tensordot(out, t, ([out.ndim - 1], [0]))
        return m._Z * out
    v = cell(m)
    b = r.int(0, N)
    r.note(N=N, d=ds, pos=p, to=b, D=m.D)
    con = np.array(m._connector)
    call("position", m.position, b)
    close(cell(m), v, "unit-cell tensor after moving the centre", tol=1e-9 * max(1, float(np.max(np.abs(v)))))
    check(np.array_equal(con, m._connector), "connector changed")


@case("C01", "refused-bonds", ["MPS.__position__"], 0.5)
def _(r):
    m = rstate(r)
    s = snapshot(m)
    for b in (-1, len(m) + 1, -r.int(1, 5), len(m) + r.int(1, 9)):
        refuses("position(%d) outside a chain of %d bonds" % (b, len(m)), m.position, b)
    same_snapshot(m, s, "after a refused bond")


@case("C01", "from-list", ["MPS.fromList", "MPS.__position__"], 1)
def _(r):
    """building a state from tensors (and a centre matrix) sweeps the centre through the whole chain: the direction of the
    state is unchanged and the result is normalised"""
    N = r.int(1, 5)
    cx = r.coin()
    ts = rtensors(r, N, [r.int(1, 3) for _ in range(N)], 4, cx)
    withmat = r.coin()
    mat = np.array([[r.scalar(cx)]])
    r.note(N=N, cx=cx, mat=withmat)
    v = vec_list(ts) * (mat[0, 0] if withmat else 1)
    nv = np.linalg.norm(v)
    if nv < 1e-8: raise Skip()
    t0 = [t.copy() for t in ts]
    m = call("fromList", mpsmod().MPS.fromList, ts, mat=mat) if withmat else call("fromList", mpsmod().MPS.fromList, ts)
    check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "list of tensors modified")
    close(vec(m), v / nv, "amplitudes of the normalised state built from a list")
    check(m._position == N, "centre position")
    for k in range(N): check(left_err(m._tensors[k]) < 1e-9, "tensor is not a left isometry", site=k)
