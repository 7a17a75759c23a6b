"""C23: state constructors and shape queries on concrete executions, against dense contractions."""
from .rt import *


def opened(ts):
    """contraction of the chain with both end legs open: (left, s1..sN, right)"""
    v = ts[0].transpose(0, 2, 1)
    for t in ts[1:]:
        v = np.tensordot(v, t, ([v.ndim - 1], [0]))
        v = v.transpose(list(range(v.ndim - 2)) + [v.ndim - 1, v.ndim - 2])
    return v


def full(m):
    ts = [np.array(t) for t in m._tensors]
    check(m._position == len(ts), "centre is not at the right end", position=m._position)
    return m._Z * np.tensordot(opened(ts), m._mat, ([len(ts) + 1], [0]))


def listed(r, obc, N, cx=None):
    cx = r.coin() if cx is None else cx
    D = [1 if obc else r.int(2, 3)] + [r.int(1, 4) for _ in range(N - 1)]
    D.append(D[0])
    d = [r.int(1, 3) for _ in range(N)]
    r.note(obc=obc, D=D, d=d, cx=cx)
    return [r.arr((D[k], D[k + 1], d[k]), cx if r.coin(0.7) else False) for k in range(N)]


def described(m, N, d, obc, kind, what):
    check(len(m) == N, what + ": length", got=len(m))
    check([int(x) for x in m.d] == list(d) and [int(x) for x in m._d] == list(d), what + ": local dimensions", got=m.d, want=d)
    Ds = [int(x) for x in m.D]
    check(len(Ds) == N + 1, what + ": number of bonds", got=Ds)
    for k in range(N): check(m._tensors[k].shape == (Ds[k], Ds[k + 1], d[k]) and m.tensors[k] is m._tensors[k] and m[k] is m._tensors[k], what + ": tensor shapes", site=k)
    check(bool(m.obc) == obc, what + ": boundary condition", got=m.obc)
    check(m.dtype == kind, what + ": dtype", got=m.dtype, want=kind)
    check(m.pos == m._position == N, what + ": centre position", got=m.pos)


def normal(m, what):
    """canonical (left-isometric tensors, centre at the right end) and normalised"""
    check(m._Z == 1, what + ": norm factor", got=m._Z)
    for k in range(len(m)): check(left_err(m._tensors[k]) < 1e-8, what + ": tensor is no isometry", site=k, error=left_err(m._tensors[k]))
    close(np.linalg.norm(m._mat), 1.0, what + ": norm of the centre matrix")


@case("C23", "constructor", ["MPS.__init__", "MPS.D", "MPS.d", "MPS.Dmax", "MPS.obc", "MPS.pos"], 2)
def _(r):
    obc = r.coin()
    N = r.int(1, 5)
    ts = listed(r, obc, N)
    old = [np.array(t) for t in ts]
    m = call("MPS", mpsmod().MPS, ts)
    described(m, N, [t.shape[2] for t in ts], obc, np.result_type(float, *ts), "constructed state")
    for k in range(N):
        check(np.array_equal(m._tensors[k], old[k]), "tensors of the constructed state", site=k)
        check(not np.shares_memory(m._tensors[k], ts[k]), "an array of the caller is used", site=k)
    D = old[-1].shape[1]
    close(m._mat, np.eye(D) / np.sqrt(D), "centre matrix")
    close(m._mat.dot(m._connector), np.eye(D), "connector")
    x = r.int(1, 50)
    m.Dmax = x
    check(m.Dmax == x and m._D == x, "dimension limit")
    call("resetZ", m.resetZ)
    check(m._Z == 1, "norm factor after resetZ", got=m._Z)
    close(full(m), np.tensordot(opened(old), m._mat, ([N + 1], [0])), "state after resetZ")


@case("C23", "fromList", ["MPS.fromList"], 3)
def _(r):
    obc = r.coin(0.7)
    N = r.int(1, 5)
    ts = listed(r, obc, N)
    if any(np.linalg.norm(t) < 1e-2 for t in ts): raise Skip()
    old = [np.array(t) for t in ts]
    mat = r.arr((ts[-1].shape[1],) * 2, r.coin() and any(np.iscomplexobj(t) for t in ts)) if r.coin() else None
    m0 = None if mat is None else np.array(mat)
    want = opened(old)
    if mat is not None: want = np.tensordot(want, mat, ([N + 1], [0]))
    nrm = np.linalg.norm(want)
    if not nrm > 1e-3: raise Skip()
    M = mpsmod().MPS
    m = call("fromList", lambda: M.fromList(ts) if mat is None else M.fromList(ts, mat))
    described(m, N, [t.shape[2] for t in ts], obc, np.result_type(float, *ts), "state from a list")
    normal(m, "state from a list")
    close(full(m), want / nrm, "state from a list: amplitudes", tol=1e-8)
    for a, b in zip(ts, old): check(np.array_equal(a, b), "an array of the caller is changed")
    check(mat is None or np.array_equal(mat, m0), "the matrix of the caller is changed")
    for k in range(N): check(not any(np.shares_memory(m._tensors[k], t) for t in ts), "an array of the caller is used", site=k)


@case("C23", "product-state", ["MPS.productState", "mpsfunctions.MPSinitializer"], 3)
def _(r):
    N = r.int(1, 6)
    obc = N > 1 and r.coin(0.7)
    kinds = [r.pick("r", "c", "i", "basis") for _ in range(N)]
    loc = []
    for k in kinds:
        d = r.int(1, 4)
        if k == "i": v = r.rs.randint(-3, 4, d)
        elif k == "basis":
            v = np.zeros(d)
            v[r.int(0, d - 1)] = 1
        else: v = r.arr((d,), k == "c")
        if not np.linalg.norm(v) > 1e-3: v = np.ones(d)
        loc.append(v)
    dt = r.pick(float, complex, None)
    r.note(N=N, obc=obc, kinds=kinds, d=[len(v) for v in loc], dtype=str(dt))
    old = [np.array(v) for v in loc]
    M = mpsmod().MPS
    if r.coin(0.1):
        loc[r.int(0, N - 1)] *= 0
        return refuses("a local state that is zero", M.productState, loc, obc)
    m = call("productState", lambda: M.productState(loc, obc) if dt is None else M.productState(loc, obc, dtype=dt))
    described(m, N, [len(v) for v in loc], obc, np.result_type(*loc, float if dt is None else dt), "product state")
    check([int(x) for x in m.D] == [1] * (N + 1), "bond dimensions of a product state", got=m.D)
    want = np.ones(())
    for v in old: want = np.multiply.outer(want, v)
    close(full(m)[0, ..., 0], want, "amplitudes of a product state", tol=1e-12)
    for a, b in zip(loc, old): check(np.array_equal(a, b), "a local state of the caller is changed")
    for k in range(N):
        loc[k][...] = 0
    close(full(m)[0, ..., 0], want, "amplitudes after changing the arrays of the caller", tol=1e-12)


@case("C23", "random-and-ones", ["MPS.random", "MPS.ones", "mpsfunctions.MPSinitializer"], 4)
def _(r):
    N = r.int(1, 6)
    obc = N > 1 and r.coin(0.7)
    D = r.int(1, 4) if obc else r.int(2, 4)
    d = r.pick(2, 3) if r.coin(0.4) else [r.int(1, 3) for _ in range(N)]
    ds = [d] * N if isinstance(d, int) else d
    dt = r.pick(float, complex, np.dtype(float), np.dtype(complex))
    cx = np.dtype(dt).kind == "c"
    kind = r.pick("random", "random", "ones")
    r.note(kind=kind, N=N, obc=obc, D=D, d=d, dtype=str(dt))
    M = mpsmod().MPS
    seed = r.int(0, 10 ** 6)
    np.random.seed(seed)
    kw = dict(scaling=r.uni(0.2, 2.0), shift=r.uni(0.0, 1.0)) if kind == "random" and r.coin() else {}
    m = call(kind, lambda: getattr(M, kind)(N, D, d, obc, dtype=dt, **kw))
    described(m, N, ds, obc, np.dtype(dt), kind + " state")
    normal(m, kind + " state")
    check(max(m.D) <= D, "bond dimensions exceed the requested one", got=m.D, want=D)
    check(not obc or (m.D[0] == 1 and m.D[-1] == 1), "open ends", got=m.D)
    if not obc: check(m.D[0] == m.D[-1] == D, "ends of the unit cell", got=m.D)
    v = full(m)
    close(np.linalg.norm(v), 1.0, kind + " state: norm", tol=1e-8)
    check(np.iscomplexobj(v) == cx, kind + " state: real or complex amplitudes")
    if kind == "ones":
        Ds = [1 if obc else D] + [D] * (N - 1) + [1 if obc else D]
        w = opened([np.ones((Ds[k], Ds[k + 1], ds[k])) * (1 + 1j if cx else 1.0) for k in range(N)])
        close(v, w / np.linalg.norm(w), "amplitudes of the state with equal entries", tol=1e-8)
    else:
        if v.size > 1 and cx and N * D > 1: check(np.max(np.abs((v * np.exp(-1j * np.angle(v.flat[np.argmax(np.abs(v))]))).imag)) > 0 or v.size == 1, "a complex random state has no phases")
        m2 = call(kind, lambda: getattr(M, kind)(N, D, d, obc, dtype=dt, **kw))
        check(v.size == 1 or m2.D != m.D or not np.array_equal(full(m2), v) or max(ds) * D == 1, "two random states are equal")
        np.random.seed(seed)
        m3 = call(kind, lambda: getattr(M, kind)(N, D, d, obc, dtype=dt, **kw))
        close(full(m3), v, "the same random numbers give a different state", tol=1e-10)


@case("C23", "initializer", ["mpsfunctions.MPSinitializer"], 1)
def _(r):
    N = r.int(2, 6)
    obc = r.coin()
    D = r.int(1, 4)
    d = r.pick(2, 3) if r.coin(0.4) else [r.int(1, 3) for _ in range(N)]
    ds = [d] * N if isinstance(d, int) else d
    cx = r.coin()
    sc, sh = r.uni(0.2, 2), r.uni(0, 1)
    r.note(N=N, obc=obc, D=D, d=d, cx=cx, scale=sc, shift=sh)
    fun = r.pick(np.zeros, np.ones, np.random.random_sample)
    ts = call("MPSinitializer", mfmod().MPSinitializer, fun, N, D, d, obc, np.dtype(complex if cx else float), sc, sh)
    check(len(ts) == N, "number of tensors", got=len(ts))
    for k, t in enumerate(ts):
        l, q = (1 if obc and k == 0 else D), (1 if obc and k == N - 1 else D)
        check(t.shape == (l, q, ds[k]) and t.dtype.kind == ("c" if cx else "f"), "tensor shape or dtype", site=k, got=t.shape)
        for x in ([t.real, t.imag] if cx else [t]):
            if fun is np.random.random_sample: check(np.all(x >= -sh * sc - 1e-12) and np.all(x <= (1 - sh) * sc + 1e-12), "entries outside the interval", site=k)
            else: close(x, np.full(t.shape, ((1 if fun is np.ones else 0) - sh) * sc), "entries", tol=1e-12)
        for q in range(k): check(not np.shares_memory(ts[q], t), "two sites share an array", sites=(q, k))


@case("C23", "schmidt-values", ["MPS.getSchmidt", "MPS.ortho"], 2)
def _(r):
    m = rstate(r, Nmax=5)
    N = len(m)
    v = vec(m)
    if not np.linalg.norm(v) > 1e-6: raise Skip()
    u = v / np.linalg.norm(v)
    for _ in range(r.int(1, 3)):
        n = r.int(0, N)
        S = np.asarray(call("getSchmidt", m.getSchmidt, n))
        want = np.linalg.svd(u.reshape(int(np.prod(v.shape[:n])), -1), compute_uv=False)
        check(S.ndim == 1 and np.all(S >= -1e-14), "Schmidt values are negative")
        a, b = np.sort(S)[::-1], np.sort(want)[::-1]
        K = max(len(a), len(b))
        close(np.pad(a, (0, K - len(a))), np.pad(b, (0, K - len(b))), "Schmidt values at bond %d" % n, tol=1e-8)
        close(vec(m), v, "state after asking for the Schmidt values")
    k = r.int(0, N - 1)
    t = np.array(m._tensors[k])
    close(call("ortho", m.ortho, k, 1), np.linalg.norm(np.tensordot(t, t.conj(), ([0, 2], [0, 2])) - np.eye(t.shape[1])), "deviation from left orthonormality", tol=1e-10)
    close(call("ortho", m.ortho, k, -1), np.linalg.norm(np.tensordot(t, t.conj(), ([1, 2], [1, 2])) - np.eye(t.shape[0])), "deviation from right orthonormality", tol=1e-10)
    close(vec(m), v, "state after checking orthonormality")
