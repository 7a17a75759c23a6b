from .rt import *
es = np.einsum


def physical(r, N):
    """physical dimensions of the sites"""
    return [r.pick(2, 2, 3) for _ in range(N)] if r.coin(0.5) else [2] * N


def unitcell(r, N, cx, form, Dlo=2, Dhi=3, ds=None):
    """isometric unit cell with generic bond dimensions (at most d*D growth so that isometries exist)"""
    D = [r.int(Dlo, Dhi) for _ in range(N)]
    D.append(D[0])
    ts = []
    for k in range(N):
        a, b, d = D[k], D[k + 1], ds[k] if ds else 2
        if form == "left": q = np.linalg.qr(r.arr((a * d, b), cx))[0].reshape(a, d, b).transpose(0, 2, 1)
        else: q = np.linalg.qr(r.arr((b * d, a), cx))[0].conj().T.reshape(a, b, d)
        ts.append(np.ascontiguousarray(q))
    return ts


def bulkmpo(r, N, cx, ds=None):
    """nearest-neighbour operator; the number of bond terms varies from bond to bond"""
    h = hmod()
    K = [r.int(1, 3)] * N if r.coin(0.4) else [r.int(0, 3) for _ in range(N)]
    Ws = []
    for j in range(N):
        l, q, d = K[j], K[(j + 1) % N], ds[j] if ds else 2
        W = np.zeros((l + 2, q + 2, d, d), complex if cx else float)
        W[0, 0] = W[-1, -1] = np.eye(d)
        W[-1, 0] = r.herm(d, cx)
        for k in range(q): W[-1, 1 + k] = r.herm(d, cx)
        for k in range(l): W[1 + k, 0] = r.herm(d, cx)
        Ws.append(W)
    return Ws, h.MPO.fromlist(Ws)


def layer(direction, x, A, W):
    """own contraction: x[ket,bra,mpo] through a site; W[ml,mr,in,out], ket index in, bra index out"""
    if direction > 0: return es("acm,abs,mnst,cdt->bdn", x, A, W, A.conj(), optimize=True)
    return es("bdn,abs,mnst,cdt->acm", x, A, W, A.conj(), optimize=True)


def through(direction, x, ts, Ws):
    for k in (range(len(ts)) if direction > 0 else range(len(ts) - 1, -1, -1)): x = layer(direction, x, ts[k], Ws[k])
    return x


def T(direction, x, ts):
    for k in (range(len(ts)) if direction > 0 else range(len(ts) - 1, -1, -1)):
        x = es("ac,abs,cds->bd", x, ts[k], ts[k].conj(), optimize=True) if direction > 0 else es("bd,abs,cds->ac", x, ts[k], ts[k].conj(), optimize=True)
    return x


def fixedpoint(direction, ts):
    """dominant eigenvector of the transfer matrix of the cell (dense), hermitian, and its eigenvalue"""
    D = ts[0].shape[0]
    m = np.zeros((D * D, D * D), complex)
    for i in range(D * D):
        e = np.zeros((D * D,), complex)
        e[i] = 1
        m[:, i] = T(direction, e.reshape(D, D), ts).reshape(-1)
    w, v = np.linalg.eig(m)
    o = np.argsort(-np.abs(w))
    if len(w) > 1 and abs(w[o[1]]) > 0.97 * abs(w[o[0]]): raise Skip()
    x = v[:, o[0]].reshape(D, D)
    x = x / np.trace(x)
    return (x + x.conj().T) / 2, w[o[0]]


def energy(ts, Ws):
    """energy per unit cell of an infinite repetition: difference of successive window energies (own contraction)"""
    l, e = fixedpoint(1, ts)
    ts = [ts[0] / np.sqrt(abs(e))] + list(ts[1:])
    r, _ = fixedpoint(-1, ts)
    l = l / np.sum(l * r)
    M = Ws[0].shape[0]
    x = np.zeros(l.shape + (M,), complex)
    x[:, :, -1] = l
    out = []
    for _ in range(3):
        x = through(1, x, ts, Ws)
        out.append(np.sum(x[:, :, 0] * r))
    assert abs((out[2] - out[1]) - (out[1] - out[0])) < 1e-9
    return (out[2] - out[1]).real


def check_left(L, ts, Ws, e, what, tol=1e-6):
    D = ts[0].shape[0]
    check(L is not None and L.shape == (D, D, Ws[0].shape[0]), what + ": shape", got=np.shape(L))
    close(L[:, :, -1], np.eye(D), what + ": boundary of the identity channel", tol=tol)
    G = through(1, np.asarray(L, complex), ts, Ws)
    want = np.array(L, complex)
    want[:, :, 0] += e * np.eye(D)
    close(G, want, what + ": growing the left environment by one cell must add the energy per cell exactly once", tol=tol)


def check_right(R, ts, Ws, e, what, tol=1e-6):
    D = ts[-1].shape[1]
    check(R is not None and R.shape == (D, D, Ws[0].shape[0]), what + ": shape", got=np.shape(R))
    close(R[:, :, 0], np.eye(D), what + ": boundary of the identity channel", tol=tol)
    G = through(-1, np.asarray(R, complex), ts, Ws)
    want = np.array(R, complex)
    want[:, :, -1] += e * np.eye(D)
    close(G, want, what + ": growing the right environment by one cell must add the energy per cell exactly once", tol=tol)


@case("C22", "steady-state-environment", ["mpsfunctions.computeUCsteadyStateHamiltonianGMRES", "mpsfunctions.TDVPGMRESUC", "mpsfunctions.OneMinusPseudoUnitcellTransferOperator"], 4)
def _(r):
    mf, M = mfmod(), mpsmod()
    N = r.int(1, 4)
    cx, cw = r.coin(), r.coin(0.4)
    form = r.pick("left", "right")
    ds = physical(r, N)
    ts = unitcell(r, N, cx, form, ds=ds)
    Ws, mpo = bulkmpo(r, N, cw, ds)
    r.note(N=N, cx=cx, complexop=cw, form=form, D=[t.shape[0] for t in ts], d=ds, K=[w.shape[0] - 2 for w in Ws])
    e = energy(ts, Ws)
    D = ts[0].shape[0]
    mk = lambda x: x if (cx or cw) else np.real(x)
    obj = ts
    if r.coin(0.3): obj = M.MPS(ts)
    if form == "left":
        dens, _ = fixedpoint(-1, ts)
        if not cx: dens = dens.real
        with quiet():
            rdens = mf.computeDensity(dens, obj, direction=-1)
            ldens = mf.computeDensity(np.eye(D), obj, direction=1)
        L, h = call("computeUCsteadyStateHamiltonianGMRES", mf.computeUCsteadyStateHamiltonianGMRES, obj, mpo, np.zeros(D * D), ldens, rdens, direction=1, thresh=1e-12, imax=2000)
        close(np.asarray(h), np.asarray(e), "energy per cell (left)", tol=1e-8)
        check_left(L, ts, Ws, e, "left")
        close(np.sum(L[:, :, 0] * dens), 0.0, "left energy environment is orthogonal to the steady state", tol=1e-6)
    else:
        dens, _ = fixedpoint(1, ts)
        if not cx: dens = dens.real
        with quiet():
            ldens = mf.computeDensity(dens, obj, direction=1)
            rdens = mf.computeDensity(np.eye(D), obj, direction=-1)
        R, h = call("computeUCsteadyStateHamiltonianGMRES", mf.computeUCsteadyStateHamiltonianGMRES, obj, mpo, np.zeros(D * D), ldens, rdens, direction=-1, thresh=1e-12, imax=2000)
        close(np.asarray(h), np.asarray(e), "energy per cell (right)", tol=1e-8)
        check_right(R, ts, Ws, e, "right")
        close(np.sum(R[:, :, -1] * dens), 0.0, "right energy environment is orthogonal to the steady state", tol=1e-6)


def full(m):
    ts = [np.array(t) for t in m._tensors]
    p = m._position
    if p < len(ts): ts[p] = np.tensordot(m._mat, ts[p], ([1], [0]))
    else: ts[p - 1] = np.tensordot(ts[p - 1], m._mat, ([1], [0])).transpose(0, 2, 1)
    ts[-1] = np.tensordot(ts[-1], m._connector, ([1], [0])).transpose(0, 2, 1)
    return ts


@case("C22", "boundary-hamiltonians", ["mpsfunctions.getBoundaryHams", "MPS.__regauge__"], 4)
def _(r):
    mf, M = mfmod(), mpsmod()
    N = r.pick(1, 2, 3, 4)
    D = r.int(2, 4)
    cx, cw = r.coin(0.4), r.coin(0.3)
    np.random.seed(r.int(0, 10 ** 6))
    ds = physical(r, N)
    ts = unitcell(r, N, cx, "left", D, D, ds) if r.coin() else [r.arr((D, D, d), cx) for d in ds]
    m = M.MPS(ts)
    m._D = D
    Ws, mpo = bulkmpo(r, N, cw, ds)
    r.note(N=N, cx=cx, complexop=cw, D=D, d=ds, K=[w.shape[0] - 2 for w in Ws])
    e = energy(full(m), Ws)
    rg = r.coin(0.7)
    if not rg:
        with quiet():
            m.regauge("symmetric")
            if r.coin(0.7): m.position(r.int(0, N))
    lb, rb, ld, rd, hl, hr = call("getBoundaryHams", mf.getBoundaryHams, m, mpo, regauge=rg)
    r.note(regauge=rg, pos=m._position)
    close(np.asarray(hl), np.asarray(e), "energy per cell returned for the left environment", tol=1e-5)
    close(np.asarray(hr), np.asarray(e), "energy per cell returned for the right environment", tol=1e-5)
    close(energy(full(m), Ws), e, "energy per cell of the state afterwards", tol=1e-5)
    # the environments live in the left/right canonical gauge of the state as left by the call
    import copy
    a = m.copy()
    with quiet(): a.position(N)
    cl = [np.array(t) for t in a._tensors]
    cl[-1] = np.tensordot(cl[-1], a._mat.dot(a._connector), ([1], [0])).transpose(0, 2, 1)
    check_left(lb, cl, Ws, e, "left", tol=1e-4)
    b = m.copy()
    with quiet(): b.position(0)
    cr = [np.array(t) for t in b._tensors]
    cr[0] = np.tensordot(b._connector.dot(b._mat), cr[0], ([1], [0]))
    check_right(rb, cr, Ws, e, "right", tol=1e-4)


@case("C22", "block-hamiltonian", ["mpsfunctions.RENORMBLOCKHAMGMRES", "mpsfunctions.TDVPGMRES", "mpsfunctions.OneMinusPseudoTransferOperator"], 3)
def _(r):
    """the returned vector solves the linear system with the pseudo transfer operator (momentum zero) or the momentum form"""
    mf = mfmod()
    D = r.int(2, 4)
    cx = r.coin()
    k = r.pick(0.0, 0.0, 0.4, -1.3)
    if k != 0: cx = True
    d = r.pick(1, -1)
    fn = r.pick("RENORMBLOCKHAMGMRES", "TDVPGMRES")
    A = unitcell(r, 1, cx, "left" if d > 0 else "right", D, D)[0]
    r.note(D=D, cx=cx, momentum=k, direction=d, fn=fn)
    one = np.eye(D)
    if d > 0:
        dens, _ = fixedpoint(-1, [A])
        rr, ll = (dens if cx else dens.real), one
    else:
        dens, _ = fixedpoint(1, [A])
        rr, ll = one, (dens if cx else dens.real)
    inh = r.arr((D, D), cx)
    if k == 0: inh = inh - np.sum(inh * dens) * one
    if not cx: inh = inh.real
    inh0 = inh.copy()
    np.random.seed(r.int(0, 10 ** 6))
    x = call(fn, getattr(mf, fn), A, A, rr, ll, inh, x0=None, tolerance=1e-13, maxiteration=3000, direction=d, momentum=k)
    check(np.array_equal(inh, inh0), "inhomogeneity modified")
    check(x.shape == (D, D), "shape")
    if k == 0:
        got = x - T(d, x, [A]) + np.sum(x * dens) * one
    else:
        got = x - np.exp(1j * k) * T(d, x, [A])
    close(got, inh, "residual of the environment equation", tol=1e-6)
    if k == 0: close(np.sum(x * dens), 0.0, "steady-state component of the environment", tol=1e-6)


@case("C22", "uniform-optimisation", ["VUMPSengine.__init__", "VUMPSengine.__doStep__", "VUMPSengine.__simulate__", "mpsfunctions.initializeLayer"], 3)
def uniform(r):
    """environments handed to the eigensolvers in every iteration of VUMPS"""
    mf = mfmod()
    with quiet():
        import lib.mpslib.engines as en
    import unittest.mock as um
    d, D = r.pick(2, 2, 3), r.int(3, 5)
    cx, cw = r.coin(), r.coin(0.4)
    A0 = unitcell(r, 1, cx, "left", D, D, [d])[0] * (1 if r.coin() else 1.7)
    Ws, mpo = bulkmpo(r, 1, cw, [d])
    solver, svd, n = r.pick("AR", "AR", "LAN"), r.coin(), r.int(1, 4)
    r.note(D=D, d=d, cx=cx, complexop=cw, solver=solver, svd=svd, steps=n, K=Ws[0].shape[0] - 2)
    fixedpoint(1, [A0])
    np.random.seed(r.int(0, 10 ** 6))
    W0 = [w.copy() for w in Ws]
    eng = en.VUMPSengine([A0], mpo, "vumps")
    seen = []

    def look(L, W, R, where):
        a, b = np.array(eng._A), np.array(eng._B)
        check(left_err(a) < 1e-7, "VUMPS: left tensor is not isometric", err=left_err(a))
        check(right_err(b) < 1e-7, "VUMPS: right tensor is not isometric", err=right_err(b))
        close(W, W0[0], "VUMPS: operator handed to the solver")
        el, er = energy([a], Ws), energy([b], Ws)
        seen.append((where, el))
        check_left(np.asarray(L), [a], Ws, el, "VUMPS left (%s)" % where, tol=1e-5)
        check_right(np.asarray(R), [b], Ws, er, "VUMPS right (%s)" % where, tol=1e-5)

    def site(f):
        def g(L, W, R, *a, **k):
            look(L, W, R, "site")
            return f(L, W, R, *a, **k)
        return g

    def bond(f):
        def g(L, W, t, R, mat, position, *a, **k):
            look(L, W, R, "bond")
            close(t, eng._A if position == "right" else eng._B, "VUMPS: tensor of the bond problem")
            return f(L, W, t, R, mat, position, *a, **k)
        return g
    kw = dict(tol=1e-12, lgmrestol=1e-12, ncv=D * D, numeig=3, Nmaxlgmres=500, artol=1e-9, arncv=D * D, svd=svd, solver=solver, Ndiag=1, nmaxlan=30, checkpoint=0, epsilon=1e-9)
    with um.patch.object(mf, "eigsh", site(mf.eigsh)), um.patch.object(mf, "lanczos", site(mf.lanczos)), um.patch.object(mf, "eigshbond", bond(mf.eigshbond)), um.patch.object(mf, "lanczosbond", bond(mf.lanczosbond)):
        e = call("VUMPSengine.simulate", eng.simulate, n, **kw)
    check(len(seen) >= 2 and {w for w, _ in seen} == {"site", "bond"}, "VUMPS: solvers were not called")
    close(np.real(e), seen[-1][1], "VUMPS: returned energy per site", tol=1e-6)
    check(left_err(np.array(eng._A)) < 1e-7 and right_err(np.array(eng._B)) < 1e-7, "VUMPS: tensors after the last iteration are not isometric")
    close(np.linalg.norm(eng._mps[0]), 1.0, "VUMPS: norm of the centre tensor", tol=1e-7)
    close(np.linalg.norm(eng._mat), 1.0, "VUMPS: norm of the centre matrix", tol=1e-7)
    close(mpo[0], W0[0], "VUMPS: operator modified")


@case("C22", "gradient-optimisation", ["HomogeneousIMPSengine.__init__", "HomogeneousIMPSengine.__doGradStep__"], 2)
def gradient(r):
    """environments used in every gradient step of a uniform state"""
    mf = mfmod()
    with quiet():
        import lib.mpslib.engines as en
    import unittest.mock as um
    d, D = r.pick(2, 2, 3), r.int(3, 5)
    cx, cw = r.coin(), r.coin(0.4)
    if cw: cx = True
    A0 = unitcell(r, 1, cx, "left", D, D, [d])[0] * (1 if r.coin() else 1.7)
    Ws, mpo = bulkmpo(r, 1, cw, [d])
    n = r.int(1, 4)
    r.note(D=D, d=d, cx=cx, complexop=cw, steps=n, K=Ws[0].shape[0] - 2)
    fixedpoint(1, [A0])
    np.random.seed(r.int(0, 10 ** 6))
    W0 = Ws[0].copy()
    eng = en.HomogeneousIMPSengine(n, A0, Ws[0], "grad", r.pick(0.02, 0.1), [0.02, 0.01], [1e-2, 1e-3], complex if cx else float, tol=1e-12, lgmrestol=1e-12, ncv=D * D, numeig=3, Nmaxlgmres=500)
    seen = []
    real = mf.HAproductSingleSite

    def site(L, W, R, vec):
        if np.min(eng._lam) < 1e-3 * np.max(eng._lam): raise Skip()      # the weights squared are inverted by the regauging: rounding errors dominate
        a, b = np.array(eng._A), np.array(eng._B)
        check(left_err(a) < 1e-6 and right_err(b) < 1e-6, "gradient: tensors are not isometric", left=left_err(a), right=right_err(b), lam=str(eng._lam), step=len(seen))
        close(W, W0, "gradient: operator")
        e = energy([a], [W0])
        seen.append(e)
        check_left(np.asarray(L), [a], [W0], e, "gradient left", tol=1e-5)
        check_right(np.asarray(R), [b], [W0], e, "gradient right", tol=1e-5)
        close(np.reshape(vec, eng._tensor.shape), np.einsum("a,abs->abs", eng._lam, b), "gradient: state in central form", tol=1e-7)
        out = real(L, W, R, vec)
        close(np.sum(np.conj(vec.reshape(-1)) * out.reshape(-1)), 2 * e, "gradient: the effective Hamiltonian counts the energy of two cells", tol=1e-4)
        return out
    with um.patch.object(mf, "HAproductSingleSite", site):
        call("HomogeneousIMPSengine.simulate", eng.simulate)
    check(len(seen) == n, "gradient: number of steps", got=len(seen), want=n)
    close(Ws[0], W0, "gradient: operator modified")
