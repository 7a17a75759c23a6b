from .rt import *
import scipy.linalg as sl


def lzmod():
    with quiet():
        import lib.Lanczos.LanczosEngine as L
    return L


def operator(r, n, cx):
    k = r.int(0, 9)
    r.note(n=n, cx=bool(cx), kind=k)
    if k == 0: return np.eye(n) * r.uni()
    if k == 1:
        h = r.herm(n, cx)
        w, u = np.linalg.eigh(h)
        w[: (n + 1) // 2] = w[0]
        return (u * w) @ u.conj().T
    if k == 2: return np.diag(r.rs.randn(n)).astype(complex if cx else float)
    return r.herm(n, cx)


def start(r, n, H, cx):
    k = r.int(0, 5)
    if k == 0: x = np.linalg.eigh(H)[1][:, r.int(0, n - 1)]
    elif k == 1:
        u = np.linalg.eigh(H)[1]
        x = u[:, 0] + u[:, -1]
    else: x = r.arr((n,), cx)
    if not cx: x = np.real(x) if not np.iscomplexobj(x) or np.linalg.norm(np.imag(x)) < 1e-12 else x
    return x * r.uni(0.2, 3.0)


def krylov(H, x, m):
    """reference: dimension and orthonormal basis of the Krylov space (full re-orthogonalisation)"""
    q = [x / np.linalg.norm(x)]
    sc = max(1e-3, np.linalg.norm(H, 2))
    for _ in range(m - 1):
        w = H @ q[-1]
        for _ in range(2):
            for v in q: w = w - np.vdot(v, w) * v
        b = np.linalg.norm(w)
        if b < 1e-12 * sc: return q, True
        if b < 1e-3 * sc: raise Skip()      # nearly exhausted: exact-arithmetic statements say nothing
        q.append(w / b)
    w = H @ q[-1]
    for _ in range(2):
        for v in q: w = w - np.vdot(v, w) * v
    b = np.linalg.norm(w)
    if 1e-12 * sc < b < 1e-3 * sc: raise Skip()
    return q, b <= 1e-12 * sc


def mv(H, style, shape, r):
    buf = {}

    def f(x):
        y = (H @ np.reshape(x, -1)).reshape(shape)
        if style == 1:      # the same output array every time
            if "b" not in buf: buf["b"] = np.zeros(shape, y.dtype)
            buf["b"][...] = y
            return buf["b"]
        if style == 2 and np.array_equal(H, np.eye(len(H))): return x
        return y
    return f


@case("C14", "recurrence", ["LanczosEngine.__simulate__"], 4)
def _(r):
    L = lzmod()
    n = r.int(1, 12)
    cx = r.coin()
    H = operator(r, n, cx)
    if r.coin(0.1): H = np.eye(n)
    x = start(r, n, H, cx if r.coin(0.7) else r.coin())
    shape = (n,)
    dot = np.dot
    if r.coin(0.15) and n % 2 == 0:
        shape = (n // 2, 2)
        dot = lambda a, b: np.dot(a.reshape(-1), b.reshape(-1))
    x = x.reshape(shape)
    ncv = r.int(1, min(n + 2, 9))
    numeig = r.int(1, min(ncv, 3))
    reortho = r.coin()
    nd = r.int(1, 12)
    r.note(ncv=ncv, numeig=numeig, reortho=reortho, Ndiag=nd, cxx=bool(np.iscomplexobj(x)), shape=shape)
    x0 = x.copy()
    style = r.int(0, 2)
    if style == 1 and np.iscomplexobj(x) != np.iscomplexobj(H): style = 0
    eng = L.LanczosEngine(mv(H, style, shape, r), dot, np.zeros, nd, ncv, numeig, 1e-9, 0.0)
    e, v, conv = call("Lanczos", eng.__simulate__, x, reortho=reortho)
    check(np.array_equal(x, x0) and x.dtype == x0.dtype, "the initial vector was modified")
    q, exh = krylov(H, x.reshape(-1), ncv)
    # the number of Krylov vectors: ncv, or the dimension of the exhausted space
    V = [np.asarray(w).reshape(-1) for w in eng._vecs]
    T = np.asarray(eng._Heff)
    check(T.shape == (len(V), len(V)), "dimension of the tridiagonal matrix", got=T.shape, vectors=len(V))
    check(len(V) <= ncv, "more Krylov vectors than requested", got=len(V), ncv=ncv)
    if len(V) < len(q): check(len(e) >= numeig and conv, "stopped early without convergence", got=len(V), want=len(q))
    x1 = x.reshape(-1) / np.linalg.norm(x)
    close(V[0], x1, "first Krylov vector", tol=1e-9)
    V = V[:len(q)]      # past an exhausted space the vectors are rounding errors
    k = len(V)
    B = np.array(V)
    G = B.conj() @ B.T
    close(G, np.eye(k), "orthonormality of the Krylov vectors", tol=1e-6)
    P = B.conj() @ H @ B.T
    close(T[:k, :k], P, "tridiagonal matrix against the projected operator", tol=1e-6 * max(1, np.linalg.norm(H)))
    close(T, np.conj(T).T, "hermiticity of the tridiagonal matrix")
    for j in range(k - 1):
        w = H @ V[j] - T[j, j] * V[j] - (T[j - 1, j] * V[j - 1] if j else 0)
        close(w, T[j + 1, j] * V[j + 1], "recurrence of the Krylov vectors", tol=1e-6 * max(1, np.linalg.norm(H)))
    if len(eng._vecs) > k: return
    w, u = np.linalg.eigh(T)
    m = min(numeig, k)
    check(len(e) == m and len(v) == m, "number of eigenpairs", got=(len(e), len(v)), want=m)
    close(np.asarray(e), w[:m], "eigenvalues", tol=1e-9)
    for j in range(m):
        check(np.shape(v[j]) == shape, "shape of an eigenvector", got=np.shape(v[j]))
        y = np.asarray(v[j]).reshape(-1)
        close(np.linalg.norm(y), 1.0, "norm of an eigenvector")
        close(np.vdot(y, H @ y), np.asarray(e[j], complex), "Rayleigh quotient of a returned vector", tol=1e-6 * max(1, np.linalg.norm(H)))
        c = B.conj() @ y
        close(B.T @ c, y, "returned vector outside the Krylov space", tol=1e-6)
        close(T @ c, e[j] * c, "returned vector is no Ritz vector", tol=1e-6 * max(1, np.linalg.norm(H)))
    if exh and len(eng._vecs) == len(q):
        for j in range(m):
            y = np.asarray(v[j]).reshape(-1)
            close(H @ y, e[j] * y, "eigenpair in an exhausted Krylov space", tol=1e-6 * max(1, np.linalg.norm(H)))


@case("C14", "time-step", ["LanczosTimeEvolution.__doStep__"], 3)
def _(r):
    L = lzmod()
    n = r.int(1, 10)
    cx = r.coin()
    H = operator(r, n, cx)
    x = start(r, n, H, r.coin())
    ncv = r.int(1, n + 2)
    dt = r.pick(-1j, 1j, 1.0, -1.0, 0.6 - 0.8j) * r.uni(0.01, 1.0)
    if r.coin(0.3): dt = type(dt)(dt)
    x = x / np.linalg.norm(x) * r.pick(1.0, 1.0, 2.5)
    r.note(ncv=ncv, dt=dt, cxx=bool(np.iscomplexobj(x)), norm=round(float(np.linalg.norm(x)), 2))
    x0 = x.copy()
    eng = L.LanczosTimeEvolution(mv(H, 0, (n,), r), np.dot, np.zeros, ncv=ncv, delta=1e-9)
    y = call("doStep", eng.__doStep__, x, dt)
    check(np.array_equal(x, x0), "the initial vector was modified")
    q, exh = krylov(H, x, ncv)
    B = np.array(q)
    P = B.conj() @ H @ B.T
    ref = B.T @ sl.expm(dt * P)[:, 0]
    close(y, ref, "evolved vector against the exponential of the projected operator", tol=1e-6)
    if exh: close(y, sl.expm(dt * H) @ (x / np.linalg.norm(x)), "evolved vector in an exhausted Krylov space", tol=1e-6)
    y2 = call("doStep", eng.__doStep__, x, dt)
    close(y2, ref, "second step with the same engine", tol=1e-6)


@case("C14", "reorthogonalised", ["LanczosEngine.__simulate__"], 1)
def _(r):
    """with re-orthogonalisation the vectors stay orthonormal although the extremal eigenvalues have converged"""
    L = lzmod()
    n = r.int(30, 60)
    cx = r.coin(0.7)
    k = r.int(1, 5)
    d = np.concatenate([np.linspace(0, 1, n - k), r.pick(1, -1) * np.cumsum(30 + 50 * r.rs.rand(k))])
    q, _ = np.linalg.qr(r.arr((n, n), cx))
    H = (q * d).dot(q.conj().T)
    H = (H + H.conj().T) / 2
    m = r.int(15, 26)
    r.note(n=n, cx=bool(cx), outliers=k, ncv=m)
    x = r.arr((n,), cx)
    eng = L.LanczosEngine(mv(H, 0, (n,), r), np.dot, np.zeros, m, m, 1, 1e-9, 0.0)
    call("Lanczos", eng.__simulate__, x, reortho=True)
    B = np.array(eng._vecs)
    if len(B) < m: raise Skip()
    T = np.asarray(eng._Heff)
    if np.min(np.abs(np.diag(T, 1))) < 1e-2: raise Skip()
    close(B.conj() @ B.T, np.eye(len(B)), "orthonormality of the re-orthogonalised Krylov vectors", tol=1e-6)
    close(T, B.conj() @ H @ B.T, "tridiagonal matrix against the projected operator", tol=1e-5 * np.max(np.abs(d)))
