from .rt import *
import scipy.linalg as sl
import tempfile, shutil, glob
from .C08 import vnd
from .C09 import cp as _cp


def enmod():
    with quiet():
        import lib.mpslib.engines as e
    return e


def parallel(a, b, msg, tol=1e-8):
    """a = c * b (the norm factor, phase included, is reset by the engines)"""
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    ph = np.vdot(b, a)
    close(a, b * (ph / abs(ph)) if abs(ph) > 1e-6 else b, msg, tol=tol)


class scratch:
    def __enter__(s):
        s.d = tempfile.mkdtemp(prefix="verif_c12_")
        return os.path.join(s.d, "run")
    def __exit__(s, *a): shutil.rmtree(s.d, ignore_errors=True)


def nnmpo(r, N, ds, cx, onsite_only=False):
    """hermitian nearest-neighbour operator as MPO and its two-site pieces as the code itself splits it"""
    h = hmod()
    K = 2
    Ws = []
    A = [[r.herm(d, cx) / 2 for _ in range(K)] for d in ds]
    B = [[r.herm(d, cx) / 2 for _ in range(K)] for d in ds]
    for j in range(N):
        d = ds[j]
        W = np.zeros((K + 2, K + 2, d, d), complex if cx else float)
        W[0, 0] = W[-1, -1] = np.eye(d)
        W[-1, 0] = r.herm(d, cx) / 2
        for k in range(K):
            if not onsite_only:
                W[-1, 1 + k] = A[j][k]
                W[1 + k, 0] = B[j][k]
        if j == 0: W = W[-1:]
        if j == N - 1: W = W[:, :1]
        Ws.append(W)
    return h.MPO.fromlist(Ws)


def pieces(mpo, tau=0.01):
    out = []
    for n in range(len(mpo) - 1):
        g = call("twoSiteGate", mpo.twoSiteGate, n, n + 1, tau)
        k = g.shape[0] * g.shape[1]
        out.append((sl.logm(g.reshape(k, k)) / tau).reshape(g.shape))
    return out


def gate(h, t):
    k = h.shape[0] * h.shape[1]
    return sl.expm(t * h.reshape(k, k)).reshape(h.shape)


def g2(v, g, s):
    x = np.tensordot(v, g, ([s, s + 1], [0, 1]))
    return np.moveaxis(x, [-2, -1], [s, s + 1])


def strang(v, hs, dt, steps):
    ev = [(n, gate(h, dt)) for n, h in enumerate(hs) if n % 2 == 0]
    eh = [(n, gate(h, dt / 2)) for n, h in enumerate(hs) if n % 2 == 0]
    od = [(n, gate(h, dt)) for n, h in enumerate(hs) if n % 2 == 1]
    for k in range(steps):
        for n, g in eh: v = g2(v, g, n)
        for n, g in od: v = g2(v, g, n)
        for n, g in eh: v = g2(v, g, n)
        v = v / np.linalg.norm(v)
    return v


def setup(r, Nmax=5, N=None):
    N = r.int(2, Nmax) if N is None else N
    cx = r.coin()
    ds = [r.pick(2, 2, 3, 1) if N < 5 else 2 for _ in range(N)]
    m = rstate(r, N=N, ds=ds, Dmax=3, cx=cx)
    mpo = nnmpo(r, N, ds, r.coin())
    dt = r.pick(-1j, 1j, -1.0, 1.0, -0.6 - 0.8j) * r.uni(0.02, 0.3)
    r.note(dt=dt)
    return m, mpo, dt


def nsteps_of(eng, dt): return int(round(eng.time / abs(dt.imag)))


@case("C12", "tebd", ["TimeEvolutionEngine.__doTEBD__", "applyEven", "applyOdd"], 4)
def _(r):
    E = enmod()
    m, mpo, dt = setup(r)
    v = vnd(m)
    s0 = snapshot(m)
    hs = pieces(mpo)
    n1, n2 = r.int(0, 4), r.int(0, 3)
    vb = r.int(0, 2)
    cps = r.pick(None, None, 1, 2, 3)
    keep = r.coin()
    r.note(steps=(n1, n2), verbose=vb, cp=cps, keep=keep)
    with scratch() as f:
        eng = call("TimeEvolutionEngine", E.TimeEvolutionEngine, m, mpo, f)
        same_snapshot(m, s0, "the state given to the engine")
        if n1 + n2 > 1 and r.coin(0.2): call("initializeTDVP", eng.initializeTDVP)
        o1 = call("doTEBD", eng.doTEBD, dt, n1, 64, 1e-16, verbose=vb, cp=cps, keep_cp=keep)
        parallel(vnd(eng.mps), strang(v, hs, dt, n1), "state after the first run", tol=1e-6)
        close(np.asarray(o1[1], float), np.asarray(n1 * abs(np.imag(dt))), "returned time")
        o2 = call("doTEBD", eng.doTEBD, dt, n2, 64, 1e-16, verbose=r.int(0, 2), cp=r.pick(None, 1, 2), keep_cp=keep)
        parallel(vnd(eng.mps), strang(v, hs, dt, n1 + n2), "state after two runs", tol=1e-6)
        close(np.asarray(o2[1], float), np.asarray((n1 + n2) * abs(np.imag(dt))), "returned time after two runs")
        close(np.asarray(eng.time, float), np.asarray((n1 + n2) * abs(np.imag(dt))), "time after two runs")
        check(eng.iteration == n1 + n2, "iteration counter", got=eng.iteration, want=n1 + n2)
        check(abs(eng.truncatedWeight) < 1e-12, "truncated weight without truncation", got=eng.truncatedWeight)
        same_snapshot(m, s0, "the state given to the engine")
        call("reset", eng.reset)
        check(eng.time == 0 and eng.iteration == 0 and eng.truncatedWeight == 0, "reset")


@case("C12", "checkpoints", ["TimeEvolutionEngine.__doTEBD__", "TimeEvolutionEngine.__doTDVP__", "Container.save", "Container.load"], 3)
def _(r):
    E = enmod()
    m, mpo, dt = setup(r, 4)
    dt = r.pick(-1j, 1j) * abs(dt)
    n = r.int(3, 6)
    cps = r.int(1, 3)
    keep = r.coin()
    tdvp = r.coin(0.4)
    r.note(steps=n, cp=cps, keep=keep, tdvp=tdvp, dt2=dt)
    kw = dict(krylov_dim=30, solver="LAN") if tdvp else dict(Dmax=64, tr_thresh=1e-16)
    run = lambda e, k, **kk: call("doTDVP" if tdvp else "doTEBD", e.doTDVP if tdvp else e.doTEBD, dt, k, **dict(kw, **kk))
    with scratch() as f:
        eng = E.TimeEvolutionEngine(m, mpo, f)
        run(eng, n, cp=cps, keep_cp=keep, verbose=r.int(0, 1))
        ref = E.TimeEvolutionEngine(m, mpo, f)
        states = [vnd(ref.mps)]
        for k in range(n):
            run(ref, 1, verbose=0)
            states.append(vnd(ref.mps))
        parallel(vnd(eng.mps), states[n], "state with checkpoints against single steps", tol=1e-6)
        files = sorted(glob.glob(f + "*.pickle"))
        if n > cps: check(len(files) >= 1, "no checkpoint was written")
        if not keep: check(len(files) <= 1, "superseded checkpoints were kept", n=len(files))
        elif n > cps: check(len(files) == (n - 1) // cps, "number of checkpoints kept", n=len(files), want=(n - 1) // cps)
        for fn in files:
            c = call("load", E.Container().load, fn[:-7])
            k = nsteps_of(c, dt)
            check(0 < k <= n and abs(c.time - k * abs(dt)) < 1e-12, "time of a checkpoint", got=c.time)
            parallel(vnd(c.mps), states[k], "state of a checkpoint against the run stopped there", tol=1e-6)
            run(c, n - k, verbose=0)
            parallel(vnd(c.mps), states[n], "state after resuming from a checkpoint", tol=1e-6)
            close(np.asarray(c.time, float), np.asarray(n * abs(dt)), "time after resuming")


@case("C12", "weights", ["TimeEvolutionEngine.__doTEBD__", "applyEven", "applyOdd"], 2)
def _(r):
    E, M = enmod(), mpsmod()
    m, mpo, dt = setup(r, N=r.int(3, 6))
    n1, n2 = r.int(1, 3), r.int(0, 3)
    D = r.int(1, 3)
    th = r.pick(1e-16, 1e-2)
    cps = r.pick(None, 1, 2)
    r.note(steps=(n1, n2), Dmax=D, thresh=th, cp=cps)
    with scratch() as f:
        eng = E.TimeEvolutionEngine(m, mpo, f)
        log = []
        name = "__applyTwoSiteGate__" if hasattr(M.MPS, "__applyTwoSiteGate__") else "applyTwoSiteGate"
        orig = getattr(M.MPS, name)

        def spy(self, *a, **k):
            o = orig(self, *a, **k)
            s = k["site"] if "site" in k else a[1]
            log.append((s, k.get("Dmax", a[2] if len(a) > 2 else None), k.get("thresh", a[3] if len(a) > 3 else 1e-16), o[0], o[1]))
            return o
        setattr(M.MPS, name, spy)
        try:
            call("doTEBD", eng.doTEBD, dt, n1, D, th, verbose=0, cp=cps)
            w1 = eng.truncatedWeight
            k1 = len(log)
            o = call("doTEBD", eng.doTEBD, dt, n2, D, th, verbose=0)
        finally: setattr(M.MPS, name, orig)
        check(max(eng.mps.D) <= max(D, max(m.D[0], m.D[-1])), "bond dimension limit", D=eng.mps.D)
        if not log: raise Skip()
        close(np.asarray(w1, float), np.asarray(sum(float(x[3]) for x in log[:k1])), "truncated weight")
        close(np.asarray(eng.truncatedWeight, float), np.asarray(sum(float(x[3]) for x in log)), "truncated weight after two runs")
        close(np.asarray(o[0], float), np.asarray(sum(float(x[3]) for x in log)), "returned truncated weight")
        check(all(x[1] == D and x[2] == th for x in log), "gates applied with other truncation limits")


# ---- TDVP against a dense reference of the symmetric projector-splitting step ---------------------------------------
def ref_tdvp(ts, Ws, dt, steps):
    """ts: open tensors (a,b,s).  Returns the amplitudes.  Convention exp(dt*H)"""
    N = len(ts)
    es = lambda *a: np.einsum(*a, optimize=True)
    ts, mat, _ = gauge(ts, 0)
    ts = [t.astype(complex) for t in ts]
    C = mat
    ts[0] = np.tensordot(C, ts[0], ([1], [0]))

    def left(L, A, W): return es("acm,abs,mnst,cdt->bdn", L, A, W, A.conj())
    def right(R, A, W): return es("bdn,abs,mnst,cdt->acm", R, A, W, A.conj())

    def evK(L, W, R, x, t):
        a, b, s = x.shape
        H = es("acm,mnst,bdn->cdtabs", L, W, R).reshape(a * b * s, a * b * s)
        return (sl.expm(t * H) @ x.reshape(-1)).reshape(x.shape)

    def evC(L, R, c, t):
        a, b = c.shape
        H = es("acm,bdm->cdab", L, R).reshape(a * b, a * b)
        return (sl.expm(t * H) @ c.reshape(-1)).reshape(c.shape)
    nrm = lambda x: x / np.linalg.norm(x)
    for _ in range(steps):
        Rs = [None] * (N + 1)
        Rs[N] = np.ones((1, 1, 1))
        for n in range(N - 1, 0, -1): Rs[n] = right(Rs[n + 1], ts[n], Ws[n])
        Ls = [np.ones((1, 1, 1))] + [None] * N
        x = ts[0]
        for n in range(N - 1):
            x = evK(Ls[n], Ws[n], Rs[n + 1], x, dt / 2)
            a, b, s = x.shape
            q, c = np.linalg.qr(x.transpose(0, 2, 1).reshape(a * s, b))
            ts[n] = q.reshape(a, s, q.shape[1]).transpose(0, 2, 1)
            Ls[n + 1] = left(Ls[n], ts[n], Ws[n])
            c = nrm(evC(Ls[n + 1], Rs[n + 1], c, -dt / 2))
            x = np.tensordot(c, ts[n + 1], ([1], [0]))
        x = evK(Ls[N - 1], Ws[N - 1], Rs[N], x, dt)
        for n in range(N - 1, 0, -1):
            a, b, s = x.shape
            q, c = np.linalg.qr(x.reshape(a, b * s).conj().T)
            ts[n] = q.conj().T.reshape(q.shape[1], b, s)
            Rs[n] = right(Rs[n + 1], ts[n], Ws[n])
            c = nrm(evC(Ls[n], Rs[n], c.conj().T, -dt / 2))
            x = np.tensordot(ts[n - 1], c, ([1], [0])).transpose(0, 2, 1)
            x = evK(Ls[n - 1], Ws[n - 1], Rs[n], x, dt / 2)
        ts[0] = nrm(x)
    return vec_list(ts)


@case("C12", "tdvp", ["TimeEvolutionEngine.__doTDVP__", "mpsfunctions.evolveTensorLan", "mpsfunctions.evolveMatrixLan", "mpsfunctions.evolveTensorSexpmv",
      "mpsfunctions.evolveMatrixSexpmv", "mpsfunctions.evolveTensorsolve_ivp", "mpsfunctions.evolveMatrixsolve_ivp"], 4)
def _(r):
    E = enmod()
    N = r.int(1, 4)
    ds = [r.pick(2, 2, 3) for _ in range(N)]
    # full-rank bonds so that the splitting is defined: no bond larger than either side can support
    D = [1] + [0] * N
    for k in range(1, N + 1): D[k] = r.int(1, 3)
    D[N] = 1
    for _ in range(3):
        for k in range(N): D[k + 1] = min(D[k + 1], D[k] * ds[k])
        for k in range(N - 1, -1, -1): D[k] = min(D[k], D[k + 1] * ds[k])
    cx = r.coin()
    ts = [r.arr((D[k], D[k + 1], ds[k]), cx) / 2 for k in range(N)]
    mpo = nnmpo(r, N, ds, r.coin()) if N > 1 else hmod().MPO.fromlist([r.herm(ds[0])[None, None]])
    dt = r.pick(-1j, 1j, -1.0, 1.0) * r.uni(0.02, 0.2)
    solver = r.pick("LAN", "LAN", "RK45", "SEXPMV", "RK23", "BDF")
    n1, n2 = r.int(1, 2), r.int(0, 2)
    vb = r.int(0, 1)
    if solver in ("RK23", "BDF"): n1, n2 = 1, 0
    r.note(N=N, d=ds, D=D, cx=cx, dt=dt, solver=solver, steps=(n1, n2), verbose=vb)
    M = mpsmod()
    g, mat, z = gauge(ts, 0)
    m = M.MPS(g)
    m._position, m._mat = 0, mat
    s0 = snapshot(m)
    with scratch() as f:
        eng = call("TimeEvolutionEngine", E.TimeEvolutionEngine, m, mpo, f)
        kw = dict(krylov_dim=40, solver=solver, rtol=1e-9 if solver == "RK45" else 1e-7, atol=1e-11, verbose=vb)
        t = call("doTDVP", eng.doTDVP, dt, n1, **kw)
        close(np.asarray(t, float), np.asarray(n1 * abs(np.imag(dt))), "returned time")
        t = call("doTDVP", eng.doTDVP, dt, n2, **kw)
        close(np.asarray(t, float), np.asarray((n1 + n2) * abs(np.imag(dt))), "returned time after two runs")
        close(np.asarray(eng.time, float), np.asarray((n1 + n2) * abs(np.imag(dt))), "time")
        a = vec(eng.mps)
    b = ref_tdvp(ts, [np.array(mpo[k]) for k in range(N)], dt, n1 + n2)
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    ph = np.vdot(b, a)
    close(a, b * (ph / abs(ph)) if abs(ph) > 1e-9 else b, "state after TDVP against the symmetric splitting step", tol=1e-5 if solver != "LAN" else 1e-7)
    same_snapshot(m, s0, "the state given to the engine")


@case("C12", "local-evolution", ["mpsfunctions.evolveTensorSexpmv", "mpsfunctions.evolveMatrixSexpmv", "sexpmv.gexpmv", "mpsfunctions.evolveTensorLan", "mpsfunctions.evolveMatrixLan",
      "mpsfunctions.evolveTensorsolve_ivp", "mpsfunctions.evolveMatrixsolve_ivp"], 2)
def _(r):
    """one site tensor or bond matrix evolved by exp(tau H_eff), spaces from a few to a hundred dimensions, short and long steps"""
    mf = mfmod()
    a, b, s, m, n = r.int(1, 6), r.int(1, 6), r.int(2, 3), r.int(1, 3), r.int(1, 3)
    cx = r.coin()
    herm = lambda d: (lambda x: x + x.conj().T)(r.arr((d, d), cx))
    L = np.stack([herm(a) for _ in range(m)], 2)
    matrix = r.coin(0.4)
    if matrix:
        R = np.stack([herm(b) for _ in range(m)], 2)
        H = np.einsum("acm,bdm->cdab", L, R).reshape(a * b, a * b)
        x = r.arr((a, b), r.coin())
    else:
        R = np.stack([herm(b) for _ in range(n)], 2)
        W = np.array([[herm(s) for _ in range(n)] for _ in range(m)])
        H = np.einsum("acm,mnst,bdn->cdtabs", L, W, R).reshape(a * b * s, a * b * s)
        x = r.arr((a, b, s), r.coin())
    if np.linalg.norm(x) < 1e-3 or np.linalg.norm(H, 2) < 1e-3: raise Skip()
    f = r.pick(0.1, 1.0, 3.0, 8.0) / np.linalg.norm(H, 2)
    if matrix: L = L * f
    else: W = W * f
    H = H * f
    tau = r.pick(-1j, 1j, -1.0, 1.0) * r.uni(0.3, 1.0)
    if r.coin(0.2): tau = complex(tau) * np.exp(1j * r.uni(0, 6))
    k = r.pick("Sexpmv", "Sexpmv", "Lan", "solve_ivp")
    if k == "solve_ivp" and f * np.linalg.norm(H, 2) > 30: raise Skip()
    r.note(shape=x.shape, m=m, n=n, cx=cx, tau=tau, scale=f, solver=k, matrix=matrix)
    kw = dict(Lan=dict(krylov_dimension=min(60, x.size)), Sexpmv={}, solve_ivp=dict(method=r.pick("RK45", "RK23"), rtol=1e-8, atol=1e-11))[k]
    fn = getattr(mf, "evolve%s%s" % ("Matrix" if matrix else "Tensor", k))
    got = call(fn.__name__, fn, *((L, R, x, tau) if matrix else (L, W, R, x, tau)), **kw)
    want = (sl.expm(tau * H) @ x.reshape(-1)).reshape(x.shape)
    if k == "Lan": want = want / np.linalg.norm(x)          # starts from the normalised vector
    close(got, want, "%s against the exponential of the effective Hamiltonian" % fn.__name__, tol=1e-6)
