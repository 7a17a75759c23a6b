from .rt import *


def ev(v, w, op_list):
    """sum over configurations of (v with the operators applied in order) times conj(w); op[in,out]"""
    for op, s in op_list: v = apply_op(v, op, s)
    return np.sum(v * w.conj())


def vnd(m): return vec(m).reshape(m.d)


@case("C06", "local", ["MPS.measureLocal", "MPS.__measureLocal__", "MPS.__tensor__"], 3)
def _(r):
    m = rstate(r, Nmax=6)
    N = len(m)
    v = vnd(m)
    p = m._position
    sc = 1e-9 * max(1, np.linalg.norm(v) ** 2)
    for _ in range(2):
        s = r.int(0, N - 1)
        op = r.arr((m.d[s], m.d[s]))
        op0 = op.copy()
        r.note(site=s, opcx=bool(np.iscomplexobj(op)))
        close(call("measureLocal", m.measureLocal, op, s), ev(v, v, [(op, s)]), "local expectation value at site %d" % s, tol=sc)
        check(np.array_equal(op, op0), "operator modified")
        check(m._position == p, "centre position changed")
        close(vnd(m), v, "state changed", tol=sc)


@case("C06", "list", ["MPS.measureList", "mpsfunctions.measureLocal"], 3)
def _(r):
    m = rstate(r, Nmax=6)
    N = len(m)
    v = vnd(m)
    p = m._position
    ops = [r.arr((d, d)) for d in m.d]
    if r.coin(0.3): m._dtype = np.dtype(float)      # stale attribute, as left behind by a gate
    got = call("measureList", m.measureList, ops)
    sc = 1e-9 * max(1, np.linalg.norm(v) ** 2)
    close(got, np.array([ev(v, v, [(ops[k], k)]) for k in range(N)]), "list of expectation values", tol=sc)
    check(m._position == p, "centre position changed")
    close(vnd(m), v, "state changed", tol=sc)


@case("C06", "list-function", ["mpsfunctions.measureLocal", "mpsfunctions.measure", "mpsfunctions.matrixElementLocal"], 2)
def _(r):
    mf = mfmod()
    m = rstate(r, Nmax=5)
    N = len(m)
    ops = [r.arr((d, d)) for d in m.d]
    one = np.ones((1, 1, 1))
    right, left = gauge(m.tolist(), 0), gauge(m.tolist(), N)
    tr = [t.copy() for t in right[0]]
    tr[0] = np.tensordot(right[1], tr[0], ([1], [0]))
    tl = [t.copy() for t in left[0]]
    tl[-1] = np.tensordot(tl[-1], left[1], ([1], [0])).transpose(0, 2, 1)
    ar, al = vec_list(tr).reshape(m.d), vec_list(tl).reshape(m.d)
    close(call("measureLocal", mf.measureLocal, tr, ops, one, one, "right"), np.array([ev(ar, ar, [(ops[k], k)]) for k in range(N)]), "measureLocal right")
    close(call("measureLocal", mf.measureLocal, tl, ops, one, one, "left"), np.array([ev(al, al, [(ops[k], k)]) for k in range(N)]), "measureLocal left")
    l = m.tolist()
    w = vec_list(l).reshape(m.d)
    n2 = np.linalg.norm(w) ** 2
    s = r.int(0, N - 1)
    if n2 > 1e-3: close(call("measure", mf.measure, ops[s][None, None], one, one, l, s), ev(w, w, [(ops[s], s)]) / n2, "measure at site %d" % s)
    m2 = rstate(r, N=N, ds=m.d)
    l2 = m2.tolist()
    w2 = vec_list(l2).reshape(m.d)
    close(call("matrixElementLocal", mf.matrixElementLocal, l, l2, ops, one, one), np.array([ev(w, w2, [(ops[k], k)]) for k in range(N)]), "matrixElementLocal", tol=1e-9 * max(1, np.linalg.norm(w) * np.linalg.norm(w2)))
    refuses("wrong number of operators", mf.measureLocal, l, ops + ops[:1], one, one, "right")
    refuses("unknown orthogonality", mf.measureLocal, l, ops, one, one, "up")
    refuses("wrong number of operators", mf.matrixElementLocal, l, l2, ops + ops[:1], one, one)


@case("C06", "matrix-elements", ["MPS.measureMatrixElementList", "mpsfunctions.matrixElementLocal"], 2)
def _(r):
    m1 = rstate(r, Nmax=5)
    N = len(m1)
    m2 = rstate(r, N=N, ds=m1.d)
    if r.coin(0.1): m2 = m1
    v1, v2 = vnd(m1), vnd(m2)
    p1, p2 = m1._position, m2._position
    ops = [r.arr((d, d)) for d in m1.d]
    got = call("measureMatrixElementList", m1.measureMatrixElementList, m2, ops)
    sc = 1e-9 * max(1, np.linalg.norm(v1) * np.linalg.norm(v2))
    close(got, np.array([ev(v1, v2, [(ops[k], k)]) for k in range(N)]), "matrix elements", tol=sc)
    check(m1._position == p1 and m2._position == p2, "centre position changed")
    close(vnd(m1), v1, "ket changed", tol=sc)
    close(vnd(m2), v2, "bra changed", tol=sc)


@case("C06", "correlations", ["MPS.measure", "MPS.__measure__"], 4)
def _(r):
    m = rstate(r, Nmax=6)
    N = len(m)
    v = vnd(m)
    k = r.int(1, 4)
    sites = sorted(r.int(0, N - 1) for _ in range(k))
    ops = [r.arr((m.d[s], m.d[s])) for s in sites]
    ferm = r.coin(0.6)
    r.note(sites=sites, fermionic=ferm)
    P = None
    lst = []
    if ferm:
        P = [np.diag([float(r.pick(1, -1)) for _ in range(d)]) for d in m.d]
        for op, s in zip(ops, sites):
            lst += [(P[q], q) for q in range(s)] + [(op, s)]
    else: lst = list(zip(ops, sites))
    if k == 1 and r.coin(): got = call("measure", m.measure, ops[0], sites[0], P) if ferm else call("measure", m.measure, ops[0], sites[0])
    else: got = call("measure", m.measure, ops, sites, P) if ferm else call("measure", m.measure, ops, sites)
    sc = max(1, np.linalg.norm(v) ** 2) * max(1.0, float(np.prod([np.linalg.norm(o) for o in ops])))
    close(got, ev(v, v, lst), "correlation function", tol=1e-9 * sc)
    close(vnd(m), v, "state changed", tol=1e-9 * sc)
    if k > 1 and sites != sites[::-1]: refuses("decreasing sites", m.measure, ops[::-1], sites[::-1])


@case("C06", "nonsquare-centre", ["MPS.measure"], 1)
def _(r):
    # over-sized bonds to the right of the centre: the centre matrix is rectangular
    M = mpsmod()
    N = r.int(2, 5)
    ds = [2] * N
    ts = rtensors(r, N, ds, 5, r.coin())
    m = M.MPS(ts)
    m._Z = 1.0
    m.position(0)
    m._mat = m._mat
    m.position(r.int(0, N))
    v = vnd(m)
    s = sorted([r.int(0, N - 1), r.int(0, N - 1)])
    ops = [r.arr((2, 2)) for _ in s]
    r.note(N=N, sites=s, D=m.D)
    close(call("measure", m.measure, ops, s), ev(v, v, list(zip(ops, s))), "correlation function", tol=1e-8 * max(1, np.linalg.norm(v) ** 2))
    # the same after growing every bond with zero blocks
    for k in range(N - 1):
        a, b = m._tensors[k], m._tensors[k + 1]
        if k + 1 == m._position: continue
        z = r.int(0, 2)
        m._tensors[k] = np.concatenate([a, np.zeros((a.shape[0], z, a.shape[2]))], axis=1)
        m._tensors[k + 1] = np.concatenate([b, np.zeros((z,) + b.shape[1:])], axis=0)
    m.position(N)
    m.position(0)
    m.position(r.int(0, N))
    v = vnd(m)
    close(call("measure", m.measure, ops, s), ev(v, v, list(zip(ops, s))), "correlation function", tol=1e-8 * max(1, np.linalg.norm(v) ** 2))
