from .rt import *
from .C08 import vnd
from .C12 import enmod, nnmpo, scratch
import contextlib
es = lambda *a: np.einsum(*a, optimize=True)


def left(L, A, W): return es("acm,abs,mnst,cdt->bdn", L, A, W, A.conj())
def right(R, A, W): return es("bdn,abs,mnst,cdt->acm", R, A, W, A.conj())


def envs(eng):
    """contraction of the boundaries with the engine's current tensors"""
    ts, W = eng._mps._tensors, [eng._mpo[k] for k in range(len(eng._mps))]
    N = len(ts)
    Ls, Rs = [np.asarray(eng._lb)], [None] * N + [np.asarray(eng._rb)]
    for k in range(N): Ls.append(left(Ls[-1], ts[k], W[k]) if Ls[-1] is not None and Ls[-1].shape[0] == ts[k].shape[0] else None)
    for k in range(N - 1, -1, -1): Rs[k] = right(Rs[k + 1], ts[k], W[k]) if Rs[k + 1] is not None and Rs[k + 1].shape[0] == ts[k].shape[1] else None
    return Ls, Rs


def same(a, b, tol=1e-8):
    if a is None or b is None: return False
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.max(np.abs(a - b), initial=0) <= tol * max(1, np.max(np.abs(b), initial=0))


def two(W1, W2):
    t = es("amst,mbuv->absutv", W1, W2)
    a, b, s, u, t1, v = t.shape
    return t.reshape(a, b, s * u, t1 * v)


SITE = ["eigsh", "lanczos", "lobpcg", "evolveTensorLan", "evolveTensorSexpmv", "evolveTensorsolve_ivp"]
BOND = ["evolveMatrixLan", "evolveMatrixSexpmv", "evolveMatrixsolve_ivp"]


@contextlib.contextmanager
def spied(eng, log):
    """every use of an environment by a local solver is checked against the contraction of the current tensors"""
    mf = mfmod()
    old = {}

    def wrap(name, f):
        def g(*a, **k):
            e = eng[0]
            if e is not None:
                Ls, Rs = envs(e)
                N = len(e._mps)
                if name in SITE:
                    L, W, R = a[0], a[1], a[2]
                    ok = False
                    for n in range(N):
                        if same(W, e._mpo[n]) and same(L, Ls[n]) and same(R, Rs[n + 1]): ok = True
                        if n + 1 < N and same(W, two(e._mpo[n], e._mpo[n + 1])) and same(L, Ls[n]) and same(R, Rs[n + 2]): ok = True
                else:
                    L, R = a[0], a[1]
                    ok = any(same(L, Ls[n]) and same(R, Rs[n]) for n in range(N + 1))
                log.append((name, e._mps._position))
                check(ok, "an environment used by %s differs from the contraction of the current tensors" % name, centre=e._mps._position, N=N, use=len(log))
            return f(*a, **k)
        return g
    try:
        for n in SITE + BOND:
            if hasattr(mf, n):
                old[n] = getattr(mf, n)
                setattr(mf, n, wrap(n, old[n]))
        yield
    finally:
        for n, f in old.items(): setattr(mf, n, f)


def kept(eng, msg):
    """environments the engine keeps for its current centre"""
    Ls, Rs = envs(eng)
    p, N = eng._mps._position, len(eng._mps)
    # the left environment of the whole chain and the right one of the whole chain serve no local problem
    for k in range(min(p, N - 1) + 1): check(eng._L[k] is not None and same(eng._L[k], Ls[k]), msg + ": left environment differs from the current tensors", bond=k, centre=p)
    for k in range(max(p, 1), N + 1): check(eng._R[N - k] is not None and same(eng._R[N - k], Rs[k]), msg + ": right environment differs from the current tensors", bond=k, centre=p)


def rank_dims(r, N, ds, Dmax):
    D = [1] + [r.int(1, Dmax) for _ in range(N - 1)] + [1]
    for _ in range(2):
        for k in range(N): D[k + 1] = min(D[k + 1], D[k] * ds[k])
        for k in range(N - 1, -1, -1): D[k] = min(D[k], D[k + 1] * ds[k])
    return D


def system(r, Nmin=2, Nmax=5, full=True):
    N = r.int(Nmin, Nmax)
    cx = r.coin()
    ds = [r.pick(2, 2, 3) for _ in range(N)]
    if full:
        D = rank_dims(r, N, ds, 4)
        m = mpsmod().MPS(*[gauge([r.arr((D[k], D[k + 1], ds[k]), cx) / 2 for k in range(N)], 0)[0]])
        ts = [r.arr((D[k], D[k + 1], ds[k]), cx) / 2 for k in range(N)]
        p = r.int(0, N)
        g, mat, z = gauge(ts, p)
        m = mpsmod().MPS(g)
        m._position, m._mat, m._Z = p, mat, 1.0
        m._D = 4
        r.note(N=N, d=ds, D=m.D, cx=bool(cx), pos=p)
    else: m = rstate(r, N=N, ds=ds, Dmax=4, cx=cx)
    return m, nnmpo(r, N, ds, r.coin() if cx else False)


@case("C13", "moves", ["Container.position", "Container.update", "Container.truncateMPS", "DMRGengine.__init__", "mpsfunctions.getL", "mpsfunctions.getR"], 3)
def _(r):
    E = enmod()
    m, mpo = system(r, full=False)
    N = len(m)
    if N > 1 and min(m.d) > 1 and r.coin(0.3):     # open boundaries of larger dimension
        bl, br = r.int(1, 3), r.int(1, 3)
        cx = np.iscomplexobj(m._tensors[0])
        if N == 1: br = bl
        Dk = [bl] + [3] * (N - 1) + [br]
        ts = [r.arr((Dk[k], Dk[k + 1], m.d[k]), cx) / 2 for k in range(N)]
        m2 = mpsmod().MPS(ts)
        m2._Z = 1.0
        with quiet(): m2.position(0); m2.position(N)
        Wl, Wr = np.array(mpo[0]), np.array(mpo[N - 1])
        lb, rb = r.arr((bl, bl, Wl.shape[0]), cx), r.arr((br, br, Wr.shape[1]), cx)
        r.note(lb=bl, rb=br)
        eng = call("DMRGengine", E.DMRGengine, m2, mpo, "x", lb=lb, rb=rb)
        close(eng._lb, lb, "left boundary of the engine")
        close(eng._rb, rb, "right boundary of the engine")
    else: eng = call("engine", r.pick(E.DMRGengine, E.TimeEvolutionEngine), m, mpo, "x")
    kept(eng, "after construction")
    for _ in range(r.int(1, 6)):
        op = r.int(0, 9)
        v = vnd(eng._mps) if eng._mps._obc else None
        if op < 6:
            n = r.int(0, N)
            r.note(position=n)
            call("position", eng.position, n)
            check(eng._mps._position == n, "centre after position()", got=eng._mps._position)
        elif op == 6 and eng._mps._obc:
            # a change of the state outside the engine, announced by update()
            k = r.int(0, N - 1)
            d = eng._mps.d[k]
            with quiet(): eng._mps.applyOneSiteGate(r.arr((d, d)), k)
            v = vnd(eng._mps)
            r.note(update=k)
            call("update", eng.update)
        elif op == 7 and eng._mps._obc:
            D = r.int(1, 4)
            r.note(truncate=D)
            call("truncateMPS", eng.truncateMPS, truncation_threshold=1e-14, D=D)
            check(max(eng._mps.D) <= max(D, eng._mps.D[0], eng._mps.D[-1]), "bond dimension after truncateMPS", D=eng._mps.D)
            v = None
        elif op == 8 and isinstance(eng, E.TimeEvolutionEngine):
            r.note(init=1)
            call("initializeTDVP", eng.initializeTDVP)
        else: continue
        if v is not None: close(vnd(eng._mps), v, "amplitudes after an engine move", tol=1e-8)
        kept(eng, "after %s" % list(r.notes[-1])[0])
    refuses("position beyond the chain", eng.position, N + 1)
    refuses("position below zero", eng.position, -1)


@case("C13", "dmrg", ["DMRGengine.__simulate__", "DMRGengine.__simulateTwoSite__", "DMRGengine.optimize"], 4)
def _(r):
    E = enmod()
    m, mpo = system(r, full=r.coin(0.7))
    N = len(m)
    ts = r.coin()
    solver = r.pick("AR", "LAN", "LAN", "LOBPCG")
    small = min(m.D[k] * m.D[k + 2] * m.d[k] * m.d[k + 1] for k in range(N - 1)) if N > 1 else 1
    if solver == "LOBPCG" and (small < 8 if ts else min(m.D[k] * m.D[k + 1] * m.d[k] for k in range(N)) < 6): solver = "LAN"
    if solver == "AR" and (min(m.D[k] * m.D[k + 1] * m.d[k] for k in range(N)) < 3): solver = "LAN"
    r.note(twosite=ts, solver=solver)
    box, log = [None], []
    with spied(box, log):
        eng = call("DMRGengine", E.DMRGengine, m, mpo, "x")
        box[0] = eng
        kw = dict(Nmax=r.int(1, 2), Econv=0.0, tol=1e-10, ncv=20, cp=None, verbose=r.int(0, 1), solver=solver, landelta=1e-9, landeltaEta=1e-9)
        f = eng.simulateTwoSite if ts else eng.simulate
        np.random.seed(7)
        e = call("simulate", f, **kw)
        one(eng, mpo, e, ts, log, "after the first optimisation")
        if r.coin(0.4):
            n = r.int(0, N)
            call("position", eng.position, n)
            if not ts: kept(eng, "moving the centre after an optimisation")
            call("update", eng.update)
        e = call("simulate", f, **kw)
        one(eng, mpo, e, ts, log, "after the second optimisation")
        call("position", eng.position, r.int(0, N))
        kept(eng, "moving the centre after an optimisation")
    check(len(log) > 0, "no local optimisation was made")


def one(eng, mpo, e, ts, log, msg):
    m = eng._mps
    N = len(m)
    v = vnd(m)
    close(np.linalg.norm(v), 1.0, msg + ": norm of the state", tol=1e-8)
    H = mpo_dense([np.array(mpo[k]) for k in range(N)])
    hv = np.tensordot(v, H, (list(range(N)), list(range(N))))
    close(np.vdot(v, hv), np.asarray(e, complex), msg + ": energy of the state against the returned one", tol=1e-6)
    for k in range(m._position): check(left_err(m._tensors[k]) < 1e-8, msg + ": tensor left of the centre not isometric", site=k)
    for k in range(m._position, N): check(right_err(m._tensors[k]) < 1e-8, msg + ": tensor right of the centre not isometric", site=k)
    kept(eng, msg)


@case("C13", "tdvp", ["TimeEvolutionEngine.__doTDVP__", "TimeEvolutionEngine.initializeTDVP"], 3)
def _(r):
    E = enmod()
    m, mpo = system(r, Nmin=1, Nmax=5) if r.coin(0.9) else system(r, full=False)
    solver = r.pick("LAN", "LAN", "RK45", "SEXPMV")
    n = r.int(1, 2)
    dt = r.pick(-1j, 1j, -1.0) * r.uni(0.02, 0.2)
    r.note(solver=solver, dt=dt, steps=n)
    box, log = [None], []
    with spied(box, log):
        eng = call("TimeEvolutionEngine", E.TimeEvolutionEngine, m, mpo, "x")
        box[0] = eng
        v = vec(eng._mps).ravel()
        call("doTDVP", eng.doTDVP, dt, n, krylov_dim=30, solver=solver, verbose=0, rtol=1e-8, atol=1e-11)
        kept(eng, "after the evolution")
        H = mpo_dense([np.array(mpo[k]) for k in range(len(m))]).reshape(len(v), len(v))
        w = vec(eng._mps).ravel()
        if np.iscomplexobj(dt):
            en = lambda x: np.vdot(x, x @ H).real / np.vdot(x, x).real
            close(np.asarray(en(w)), np.asarray(en(v)), "energy after a real-time evolution", tol=1e-5)
        if r.coin(0.5):
            with quiet(): eng.doTEBD(dt, 1, 8, 1e-14, verbose=0) if len(m) > 1 else None
            call("initializeTDVP", eng.initializeTDVP)
            kept(eng, "initializeTDVP after TEBD")
            call("doTDVP", eng.doTDVP, dt, 1, krylov_dim=30, solver=solver, verbose=0)
    check(len(log) > 0, "no local evolution was made")


def ucmpo(r, N, d, cx):
    h = hmod()
    K = 2
    Ws = []
    for j in range(N):
        W = np.zeros((K + 2, K + 2, d, d), complex if cx else float)
        W[0, 0] = W[-1, -1] = np.eye(d)
        W[-1, 0] = r.herm(d, cx) / 2
        for k in range(K):
            W[-1, 1 + k] = r.herm(d, cx) / 3
            W[1 + k, 0] = r.herm(d, cx) / 3
        Ws.append(W)
    return h.MPO.fromlist(Ws)


def cell(mps):
    """matrices of the unit cell including centre matrix and connector, first axis ... last axis the boundary"""
    ts = [np.array(t) for t in mps._tensors]
    p = mps._position
    if p < len(ts): ts[p] = np.tensordot(mps._mat, ts[p], ([1], [0]))
    else: ts[p - 1] = np.tensordot(ts[p - 1], mps._mat, ([1], [0])).transpose(0, 2, 1)
    ts[-1] = np.tensordot(ts[-1], mps._connector, ([1], [0])).transpose(0, 2, 1)
    return ts


@case("C13", "idmrg", ["IDMRGengine.__init__", "IDMRGengine.__update__", "mpsfunctions.patchmpo"], 2)
def _(r):
    E, M = enmod(), mpsmod()
    N = r.int(2, 4)
    D = r.int(2, 3)
    cx = r.coin(0.4)
    N = r.pick(2, 3, 4)
    np.random.seed(r.int(0, 10 ** 6))
    dt = complex if cx else float
    with quiet(): m = M.MPS.random(N=N, D=D, d=2, obc=False, dtype=np.dtype(dt))
    if r.coin():
        with quiet(): m.position(0)
    mpo = ucmpo(r, N, 2, cx)
    ts = r.coin()
    r.note(N=N, D=D, cx=cx, pos=m._position, twosite=ts)
    W0 = [np.array(mpo[k]) for k in range(N)]
    box, log = [None], []
    with spied(box, log):
        eng = call("IDMRGengine", E.IDMRGengine, m, mpo, "x")
        box[0] = eng
        kept(eng, "after construction")
        for it in range(r.int(1, 2)):
            base = E.DMRGengine.simulateTwoSite if False else (E.DMRGengine.__dict__["__simulateTwoSite__"] if ts else E.DMRGengine.__dict__["__simulate__"])
            call("sweep", base, eng, Nmax=1, Econv=1e-12, tol=1e-10, ncv=20, cp=None, verbose=0, solver="LAN", landelta=1e-9, landeltaEta=1e-9)
            c0 = cell(eng._mps)
            lb, rb = np.array(eng._lb), np.array(eng._rb)
            wl = [np.array(eng._mpo[k]) for k in range(N)]
            p0 = np.array(eng._mps._mat)
            box[0] = None
            with quiet(): mc = eng._mps.copy(); mc.position(N)
            call("__update__", eng.__update__)
            box[0] = eng
            kept(eng, "after shifting the unit cell")
            h = N // 2
            for k in range(N): close(np.asarray(eng._mpo[k]), wl[(k + h) % N], "operator after shifting the unit cell")
            sv = np.linalg.svd(p0, compute_uv=False)
            L = lb
            for k in range(h): L = left(L, mc._tensors[k], wl[k])
            close(eng._lb, L, "left boundary after shifting the unit cell", tol=1e-7)
            # the shifted cell represents the same infinite state: traces over one and two cells agree up to a factor
            c1 = cell(eng._mps)
            a = vec_list(c0) if c0[0].shape[0] > 1 or c0[-1].shape[1] > 1 else vec_list(c0)
            b = vec_list(c1)
            a = np.moveaxis(a, list(range(h)), list(range(N - h, N)))
            with quiet(): mc2 = mc.copy(); mc2.position(h)
            s = np.linalg.svd(mc2._mat, compute_uv=False)
            if s.min() > 1e-6 and np.linalg.norm(a) > 1e-8 and np.linalg.norm(b) > 1e-8:
                a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
                ph = np.vdot(a, b)
                close(b, a * ph / abs(ph) if abs(ph) > 1e-9 else a, "state of the shifted unit cell", tol=1e-5)


def _uniform():
    from . import C22
    case("C13", "uniform-optimisation", ["VUMPSengine.__init__", "VUMPSengine.__doStep__", "VUMPSengine.__simulate__"], 1.5)(C22.uniform)


_uniform()
