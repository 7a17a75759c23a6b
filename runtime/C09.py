from .rt import *

SX = np.array([[0, 1], [1, 0]], float)
SY = np.array([[0, -1j], [1j, 0]])
ZM = np.diag([-1.0, 1.0])           # the convention of TFI/XXZ: index 0 is "down"
ID = np.eye(2)


def kr(*ops):
    o = np.eye(1)
    for x in ops: o = np.kron(o, x)
    return o


def embed(N, d, terms):
    """terms: (coefficient, {site: op}); op as matrix [in,out]"""
    H = np.zeros((d ** N, d ** N), complex)
    for c, ops in terms:
        H = H + c * kr(*[ops.get(k, np.eye(d)) for k in range(N)])
    return H


def cp(r, n, cx):
    a = r.arr((n,), cx)
    if n and r.coin(0.2): a = np.full((n,), a[0])
    if n and r.coin(0.2): a[r.int(0, n - 1)] = 0
    return a


def lists(r, *a):
    k = r.coin(0.3)
    return [list(x) if k else x for x in a]


def dense(mpo):
    N = len(mpo)
    d = mpo[0].shape[2]
    return mpo_dense([np.asarray(mpo[k]) for k in range(N)]).reshape(d ** N, d ** N)


def form_obc(mpo, M, N, d):
    check(len(mpo) == N, "number of tensors", got=len(mpo))
    for k in range(N):
        sh = (1 if k == 0 else M, 1 if k == N - 1 else M, d, d)
        check(np.shape(mpo[k]) == sh, "shape of tensor", site=k, got=np.shape(mpo[k]))


def form_pbc(mpo, M, N, d):
    check(len(mpo) == N, "number of tensors", got=len(mpo))
    for k in range(N): check(np.shape(mpo[k]) == (M, M, d, d), "shape of tensor", site=k, got=np.shape(mpo[k]))


def cell(mpo, extra=1):
    """open boundary vectors on the unit cell followed by its first tensors again"""
    N = len(mpo)
    ws = [np.asarray(mpo[k % N]) for k in range(N + extra)]
    ws[0] = ws[0][-1:]
    ws[-1] = ws[-1][:, 0:1]
    d = ws[0].shape[2]
    return mpo_dense(ws).reshape(d ** (N + extra), d ** (N + extra))


def verify(r, mk, terms, M, N, d, obc, hermitian, tol=1e-10):
    """terms(n_sites, cyclic list of sites) as given by onsite(k)->op and bond(k)->[(a,b)]"""
    onsite, bond = terms
    mpo = call("constructor", mk)
    if obc:
        form_obc(mpo, M, N, d)
        H = dense(mpo)
        ts = [(1, {k: onsite(k)}) for k in range(N)] + [(1, {k: a, k + 1: b}) for k in range(N - 1) for a, b in bond(k)]
        want = embed(N, d, ts)
    else:
        form_pbc(mpo, M, N, d)
        H = cell(mpo)
        ts = [(1, {k: onsite(k % N)}) for k in range(N + 1)] + [(1, {k: a, k + 1: b}) for k in range(N) for a, b in bond(k)]
        want = embed(N + 1, d, ts)
    close(H, want, "operator encoded by the MPO", tol=tol)
    if hermitian: close(H, H.conj().T, "hermiticity", tol=tol)
    return mpo


@case("C09", "TFI", ["TFI.__init__"], 2)
def _(r):
    h = hmod()
    cx, obc = r.coin(0.3), r.coin(0.6)
    N = r.int(2 if obc else 1, 5)
    J, B = lists(r, cp(r, N - 1 if obc and r.coin() else N, cx), cp(r, N, cx))
    r.note(N=N, obc=obc, cx=cx)
    m = verify(r, lambda: h.TFI(J, B, obc, dtype=complex if cx else float), (lambda k: B[k] * ZM, lambda k: [(J[k] * SX, SX)]), 3, N, 2, obc, not cx)
    check(m.dtype == (complex if cx else float), "dtype")


@case("C09", "TFI_2", ["TFI_2.__init__"], 2)
def _(r):
    h = hmod()
    cx, obc = r.coin(0.3), r.coin(0.6)
    N = r.int(2 if obc else 1, 5)
    J, B = lists(r, cp(r, N - 1 if obc and r.coin() else N, cx), cp(r, N, cx))
    r.note(N=N, obc=obc, cx=cx)
    verify(r, lambda: h.TFI_2(J, B, obc, dtype=complex if cx else float), (lambda k: B[k] * SX, lambda k: [(J[k] * ZM, ZM)]), 3, N, 2, obc, not cx)


@case("C09", "XXZ", ["XXZ.__init__"], 2)
def _(r):
    h = hmod()
    cx, obc = r.coin(0.3), r.coin(0.6)
    N = r.int(2 if obc else 1, 5)
    n = N - 1 if obc and r.coin() else N
    Jz, Jxy, B = lists(r, cp(r, n, cx), cp(r, n, cx), cp(r, N, cx))
    r.note(N=N, obc=obc, cx=cx)
    Sz = ZM / 2
    S = np.array([[0, 1.0], [0, 0]])
    verify(r, lambda: h.XXZ(Jz, Jxy, B, obc, dtype=complex if cx else float),
           (lambda k: B[k] * Sz, lambda k: [(Jz[k] * Sz, Sz), (Jxy[k] / 2 * S, S.T), (Jxy[k] / 2 * S.T, S)]), 5, N, 2, obc, not cx)


@case("C09", "XXZflipped", ["XXZflipped.__init__"], 2)
def _(r):
    h = hmod()
    obc = r.coin(0.6)
    N = r.int(2 if obc else 1, 5)
    n = N - 1 if obc else N
    D, J = lists(r, cp(r, n, False), cp(r, n, False))
    r.note(N=N, obc=obc)
    verify(r, lambda: h.XXZflipped(D, J, obc, dtype=complex),
           (lambda k: 0 * ID, lambda k: [(J[k] * SX, SX), (-J[k] * SY, SY), (-D[k] * J[k] * ZM, ZM)]), 5, N, 2, obc, True)


@case("C09", "Jess", ["JessHamiltonian.__init__"], 1.5)
def _(r):
    h = hmod()
    obc = r.coin(0.6)
    N = r.int(2, 4) if obc else r.int(1, 3)
    J, w, chi = lists(r, cp(r, N - 1 if obc else N, False), cp(r, N, False), cp(r, N, False))
    r.note(N=N, obc=obc)
    P = [SX, SY, np.diag([1.0, -1.0])]
    bond = lambda k: [(J[k] * np.kron(p, ID), np.kron(p, ID)) for p in P] + [(J[k] * np.kron(ID, p), np.kron(ID, p)) for p in P]
    verify(r, lambda: h.JessHamiltonian(J, w, chi, obc), (lambda k: w[k] * (np.kron(SX, ID) + np.kron(ID, SX)) + chi[k] * np.kron(SX, SX), bond), 8, N, 4, obc, True)
    refuses("wrong number of couplings", h.JessHamiltonian, list(cp(r, N - 2 if obc else N - 1, False)) if N > 1 else [], w, chi, obc)


C = np.array([[0, 1.0], [0, 0]])


@case("C09", "SpinlessFermions", ["SpinlessFermions.__init__"], 2)
def _(r):
    h = hmod()
    obc = r.coin(0.6)
    N = r.int(2 if obc else 1, 5)
    n = N - 1 if obc else N
    cx = r.coin(0.3)
    V, t, mu = lists(r, cp(r, n, cx), cp(r, n, cx), cp(r, N, cx))
    r.note(N=N, obc=obc, cx=cx)
    num = np.diag([0.0, 1.0])
    P = np.diag([1.0, -1.0])
    # -t (c+_n c_{n+1} + c+_{n+1} c_n) with the Jordan-Wigner string to the left: c_n = C, c_{n+1} = P x C
    cl, cr = np.kron(C, ID), np.kron(P, C)
    hop = cl.T.dot(cr) + cr.T.dot(cl)
    close(hop, np.kron(C.T, C) + np.kron(C, C.T), "reference")
    verify(r, lambda: h.SpinlessFermions(V, t, mu, obc, dtype=complex if cx or r.coin() else float),
           (lambda k: mu[k] * num, lambda k: [(-t[k] * C.T, C), (-t[k] * C, C.T), (V[k] * num, num)]), 5, N, 2, obc, not cx)


@case("C09", "Hubbard", ["HubbardChain.__init__"], 2)
def _(r):
    h = hmod()
    obc = r.coin(0.6)
    N = r.int(2, 4) if obc else r.int(1, 3)
    n = N - 1 if obc else N
    cx = r.coin(0.3)
    U, mu, md = lists(r, cp(r, N, cx), cp(r, N, cx), cp(r, N, cx))
    tu, td = lists(r, cp(r, n, cx), cp(r, n, cx))
    r.note(N=N, obc=obc, cx=cx)
    num = np.diag([0.0, 1.0])
    Z = np.diag([1.0, -1.0])
    PP = np.kron(Z, Z)
    cd, cu = np.kron(C, ID), np.kron(Z, C)
    # two-site fermions: site n carries (down,up), the string of site n multiplies the operators of site n+1
    out = {}
    for nm, c in (("u", cu), ("d", cd)):
        out[nm] = [(c.T.dot(PP), c), (-c.dot(PP), c.T)]
        full = np.kron(c, np.eye(4)).T.dot(np.kron(PP, c))
        close(embed(2, 4, [(1, {0: a, 1: b}) for a, b in out[nm]]), full + full.T, "reference")
    bond = lambda k: [(-tu[k] * a, b) for a, b in out["u"]] + [(-td[k] * a, b) for a, b in out["d"]]
    verify(r, lambda: h.HubbardChain(U, tu, td, mu, md, obc, dtype=complex if cx or r.coin() else float),
           (lambda k: mu[k] * np.kron(ID, num) + md[k] * np.kron(num, ID) + U[k] * np.kron(num, num), bond), 6, N, 4, obc, not cx)


def boson(d):
    c = np.diag(np.sqrt(np.arange(1, d)), 1)
    return c, c.T, c.T.dot(c)


@case("C09", "PhiFour", ["PhiFourmpo", "PhiFourmpo2", "PhiFourmpo3", "PhiFourmpo4", "TwoSitePhiFourMPO"], 2)
def _(r):
    h = hmod()
    v = r.int(1, 5)
    d = r.int(2, 5)
    mu, nu, g, dx = r.uni(0.5, 2), r.uni(0.5, 2), r.uni(-2, 2), r.uni(0.3, 2)
    obc = r.coin(0.6)
    N = r.int(2, 4 if d < 4 else 3)
    if not obc: N -= 1
    if d >= 4 and not obc: N = 1 if d == 5 else N
    r.note(variant=v, d=d, N=N, obc=obc)
    c, cd, n = boson(d)
    q = cd.dot(cd).dot(cd).dot(cd) + 4 * cd.dot(cd).dot(cd).dot(c) + 6 * cd.dot(cd).dot(c).dot(c) + 4 * cd.dot(c).dot(c).dot(c) + c.dot(c).dot(c).dot(c)
    sq = c.dot(c) + cd.dot(cd)
    I = np.eye(d)
    A, B = (mu ** 2 + nu ** 2), (mu ** 2 - nu ** 2)
    hop = lambda f: [(-f * c, cd), (-f * cd, c)]
    sym = lambda f, o: [(f * I, o), (f * o, I)]
    if v == 1: ons, bond, M = g / (96 * nu ** 2 * dx) * q, hop(1 / (2 * nu * dx ** 2)) + sym(A / (8 * nu) + 1 / (2 * nu * dx ** 2), n) + sym(B / (16 * nu), sq), 10
    elif v == 2: ons, bond, M = g / (96 * nu * dx) * q, hop(1 / dx ** 2) + sym(A / 4 + 1 / dx ** 2, n) + sym(B / 8, sq), 10
    elif v == 3: ons, bond, M = A / 2 * n + B / 4 * sq + g / (96 * nu * dx) * q, hop(1 / dx ** 2) + sym(1 / dx ** 2, n), 6
    else: ons, bond, M = (A / 2 + 2 / dx ** 2) * n + B / 4 * sq + g / (96 * nu * dx) * q, hop(1 / dx ** 2), 4
    if v == 5:
        verify(r, lambda: h.TwoSitePhiFourMPO(mu, nu, g, dx, d), (lambda k: ons / 2, lambda k: bond), 4, 2, d, True, True)
        return
    fn = [h.PhiFourmpo, h.PhiFourmpo2, h.PhiFourmpo3, h.PhiFourmpo4][v - 1]
    verify(r, lambda: fn(mu, nu, g, N, dx, d, obc), (lambda k: ons, lambda k: bond), M, N, d, obc, True)


@case("C09", "LiebLiniger", ["LiebLinigermpo", "LiebLinigermpo1", "LiebLinigermpo2", "LiebLinigermpo3", "LocalLiebLinigermpo", "HomogeneousLiebLinigermpo", "projectedLiebLinigermpo"], 2)
def _(r):
    h = hmod()
    v = r.int(0, 6)
    d = r.int(2, 4)
    N = r.int(1, 3)
    mu, g, mass, dx = r.uni(-2, 2), r.uni(-2, 2), r.uni(0.3, 2), r.uni(0.3, 2)
    r.note(variant=v, d=d, N=N)
    c, cd, n = boson(d)
    I = np.eye(d)
    K = 1 / (2 * mass * dx ** 2)
    inp = cd.dot(cd).dot(c).dot(c)
    hop = [(-K * c, cd), (-K * cd, c)]
    sym = lambda f, o: [(f * I, o), (f * o, I)]
    if v == 0: verify(r, lambda: h.LiebLinigermpo(mu, g, mass, N, dx, d), (lambda k: (mu + 2 * K) * n + g / dx * inp, lambda k: hop), 4, N, d, False, True)
    if v == 1: verify(r, lambda: h.LiebLinigermpo1(mu, g, mass, N, dx, d), (lambda k: g / dx * inp, lambda k: hop + sym(mu / 2 + K, n)), 6, N, d, False, True)
    if v == 2: verify(r, lambda: h.LiebLinigermpo2(mu, g, mass, N, dx, d), (lambda k: 0 * I, lambda k: hop + sym(mu / 2 + K, n) + [(g / dx * n, n)]), 7, N, d, False, True)
    if v == 3: verify(r, lambda: h.LiebLinigermpo3(mu, g, mass, N, dx, d), (lambda k: mu * n, lambda k: hop + sym(K, n) + [(g / dx * n, n)]), 7, N, d, False, True)
    if v == 4:
        m2 = cp(r, 2, False)
        verify(r, lambda: h.LocalLiebLinigermpo(m2, g, mass, dx, d), (lambda k: (m2[k] / 2 + K) * n + g / (2 * dx) * inp, lambda k: hop), 4, 2, d, True, True)
    if v == 5:
        c, cd, n = boson(2)
        P = np.eye(2) - n
        K = 1 / (2 * mass)
        verify(r, lambda: h.HomogeneousLiebLinigermpo(g, mass), (lambda k: 0 * n, lambda k: [(-K * c, cd), (-K * cd, c), (K * P, n), (K * n, P), (g * n, n)]), 7, 3, 2, True, True)
    if v == 6:
        c, cd, n = boson(2)
        P = np.eye(2) - n
        obc = r.coin()
        N = r.int(2, 4)
        m = cp(r, N, False)
        on = (lambda k: (m[k] / 2 if k in (0, N - 1) else m[k]) * n) if obc else (lambda k: m[k] * n)
        verify(r, lambda: h.projectedLiebLinigermpo(m, g, mass, N, dx, obc), (on, lambda k: [(-K * c, cd), (-K * cd, c), (K * n, P), (P, K * n), (g / dx * n, n)]), 7, N, 2, obc, True)


@case("C09", "container", ["MPO.__init__", "MPO.fromlist", "MPO.fromMPO"], 0.7)
def _(r):
    h = hmod()
    N = r.int(1, 4)
    W = rmpo(r, N, [r.int(1, 3) for _ in range(N)])
    m = call("fromlist", h.MPO.fromlist, W)
    check(len(m) == N, "length")
    for k in range(N): check(np.array_equal(m[k], W[k]), "tensor", site=k)
    m2 = call("fromMPO", h.MPO.fromMPO, m)
    m[0][...] = 0
    check(all(np.array_equal(m2[k], W[k]) for k in range(N)), "operator shares memory with the list it was built from")
    check(m2.dtype == np.result_type(float, *[w.dtype for w in W]), "dtype")
    w = r.arr(W[0].shape)
    m2[0] = w
    check(np.array_equal(m2[0], w), "assigned tensor")
