from .rt import *
es = np.einsum


def rebuild(G, L):
    ts = []
    for k in range(len(G)): ts.append(np.tensordot(np.diag(L[k]), G[k], ([1], [0])))
    ts[-1] = np.tensordot(ts[-1], np.diag(L[-1]), ([1], [0])).transpose(0, 2, 1)
    return ts


def check_form(G, L, N, what, tol=1e-8, cond=None):
    check(len(G) == N and len(L) == N + 1, what + ": one more Lambda than sites", got=(len(G), len(L)))
    for k in range(N + 1):
        l = np.asarray(L[k])
        check(l.ndim == 1, what + ": Lambda is a vector", bond=k)
        check(np.isrealobj(l) or np.max(np.abs(l.imag)) == 0, what + ": Lambda is real", bond=k)
        l = l.real
        check(np.all(l >= -1e-14), what + ": Lambda has a negative entry", bond=k, lam=l)
        close(np.linalg.norm(l), 1.0, what + ": norm of Lambda at bond %d" % k)
        check(np.all(np.diff(l) <= 1e-9), what + ": Lambda not in descending order", bond=k, lam=l)
    for k in range(N):
        g = G[k]
        check(g.shape[0] == len(L[k]) and g.shape[1] == len(L[k + 1]), what + ": shapes of Gamma and Lambda", site=k, g=g.shape)
        a = np.tensordot(np.diag(L[k]), g, ([1], [0]))
        b = np.tensordot(g, np.diag(L[k + 1]), ([1], [0])).transpose(0, 2, 1)
        check(left_err(a) < tol, what + ": Lambda*Gamma is not a left isometry", site=k, err=left_err(a))
        check(right_err(b) < tol, what + ": Gamma*Lambda is not a right isometry", site=k, err=right_err(b))


def schmidt(v, k):
    s = np.linalg.svd(v.reshape(int(np.prod(v.shape[:k])), -1), compute_uv=False)
    return s / np.linalg.norm(s)


def well(v, mps=None):
    """smallest relevant Schmidt value (the form divides by the Schmidt values; rounding grows accordingly)"""
    m = 1.0
    for k in range(1, v.ndim):
        s = schmidt(v, k)
        s = s[s > 1e-13]
        m = min(m, s[-1])
    return m


def check_state(G, L, v, what, tol):
    w = vec_list(rebuild(G, L))
    v = v / np.linalg.norm(v)
    close(np.linalg.norm(w), 1.0, what + ": norm of the rebuilt state", tol=tol)
    ov = np.vdot(w, v)
    close(np.abs(ov), 1.0, what + ": rebuilt state is parallel to the represented state", tol=tol)
    close(w * ov, v, what + ": amplitudes rebuilt from Gamma and Lambda", tol=10 * tol)


@case("C17", "obc-object", ["MPS.canonize", "MPS.__canonize__", "mpsfunctions.canonizeMPS"], 4)
def _(r):
    m = rstate(r, raw=r.coin(0.3), Nmax=6)
    v = vec(m)
    if np.linalg.norm(v) < 1e-8: raise Skip()
    w = well(v)
    if w < 1e-6: raise Skip()
    tol = 1e-9 / w
    s0 = snapshot(m)
    how = r.pick("canonize", "canonize", "function")
    r.note(how=how)
    N = len(m)
    if how == "canonize":
        call("canonize", m.canonize)
        G, L = m._gamma, m._lambda
    else:
        G, L = call("canonizeMPS", mfmod().canonizeMPS, m)
    check_form(G, L, N, how, tol=max(1e-8, tol))
    check_state(G, L, v, how, tol)
    for k in range(1, N):
        s = schmidt(v, k)
        n = min(len(s), len(L[k]))
        close(np.asarray(L[k])[:n], s[:n], "Schmidt values at bond %d" % k, tol=1e-8)
    close(vec(m), v, "state represented by the object afterwards", tol=1e-8 * max(1, np.linalg.norm(v)))


@case("C17", "obc-list", ["mpsfunctions.canonizeMPS"], 3)
def _(r):
    N = r.int(1, 6)
    cx = r.coin()
    ts = rtensors(r, N, [r.int(1, 3) for _ in range(N)], 4, cx)
    if r.coin(0.3) and N > 1:
        k = r.int(0, N - 1)
        ts[k] = ts[k] * r.pick(1e-6, 1e5)
    r.note(N=N, cx=cx, D=[t.shape[0] for t in ts])
    v = vec_list(ts)
    if np.linalg.norm(v) < 1e-8: raise Skip()
    w = well(v)
    if w < 1e-6: raise Skip()
    t0 = [t.copy() for t in ts]
    G, L = call("canonizeMPS", mfmod().canonizeMPS, ts)
    check(len(ts) == len(t0) and all(np.array_equal(a, b) for a, b in zip(ts, t0)), "list of tensors modified")
    check_form(G, L, N, "list", tol=max(1e-8, 1e-9 / w))
    check_state(G, L, v, "list", 1e-9 / w)


@case("C17", "product-and-special", ["mpsfunctions.canonizeMPS"], 1)
def _(r):
    """product states, states with exactly known Schmidt values, over-sized bonds"""
    M = mpsmod()
    N = r.int(2, 5)
    kind = r.pick("product", "ghz", "bell")
    cx = r.coin()
    d = 2
    if kind == "product":
        m = M.MPS.productState([r.arr((d,), cx) for _ in range(N)], obc=True)
        want = [np.ones(1)] * (N + 1)
        ts = m.tolist()
    elif kind == "ghz":
        a = r.uni(0.2, 0.7)
        c = [np.sqrt(1 - a * a), a] if a * a < 0.5 else [a, np.sqrt(1 - a * a)]
        ts = []
        for k in range(N):
            t = np.zeros((1 if k == 0 else 2, 1 if k == N - 1 else 2, d))
            for s in range(2): t[0 if k == 0 else s, 0 if k == N - 1 else s, s] = c[s] if k == 0 else 1
            u = r.unitary(d, cx)
            ts.append(np.tensordot(t, u, ([2], [0])))
        want = [np.ones(1)] + [np.array(c)] * (N - 1) + [np.ones(1)]
    else:
        N = 2 * (N // 2)
        ts, want = [], [np.ones(1)]
        for k in range(N // 2):
            a = r.uni(0.75, 0.95)
            c = [a, np.sqrt(1 - a * a)]
            u, w = r.unitary(d, cx), r.unitary(d, cx)
            ts.append((np.eye(2) * c).dot(u.T).reshape(1, 2, d) if False else es("bs,sp->bp", np.diag(c), u)[None])
            ts.append(es("bs,sp->bp", np.eye(2), w)[:, None, :])
            want += [np.array(c), np.ones(1)]
    r.note(kind=kind, N=N, cx=cx)
    v = vec_list(ts)
    G, L = call("canonizeMPS", mfmod().canonizeMPS, list(ts))
    check_form(G, L, len(ts), kind, tol=1e-7)
    check_state(G, L, v, kind, 1e-8)
    for k in range(len(ts) + 1):
        check(len(L[k]) == len(want[k]), "number of Schmidt values", bond=k, got=L[k], want=want[k])
        close(np.asarray(L[k]), want[k], "Schmidt values", tol=1e-8)


def tm(A, B):
    """dense mixed transfer matrix of two unit cells (A un-conjugated, B conjugated)"""
    x = None
    for a, b in zip(A, B):
        e = es("abs,cds->acbd", a, b.conj())
        e = e.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
        x = e if x is None else x.dot(e)
    return x


def gap(ts):
    w = np.sort(np.abs(np.linalg.eigvals(tm(ts, ts))))[::-1]
    return w[0], (w[1] / w[0] if len(w) > 1 else 0.0)


@case("C17", "infinite-cell", ["MPS.canonize", "MPS.__canonize__", "mpsfunctions.canonizeMPS"], 2)
def _(r):
    """the same for a unit cell of an infinite state: the rebuilt cell generates the same state per cell"""
    M = mpsmod()
    N = r.int(1, 4)
    D = r.int(2, 4)
    cx = r.coin()
    ts = [r.arr((D, D, 2), cx) for _ in range(N)]
    r.note(N=N, D=D, cx=cx)
    e0, g = gap(ts)
    if g > 0.95: raise Skip()
    m = M.MPS(ts)
    m._D = D
    call("canonize", m.canonize)
    G, L = m._gamma, m._lambda
    lmin = min(np.min(np.abs(l)) for l in L) if L and L[0] is not None else 1
    if lmin < 1e-4: raise Skip()
    check_form(G, L, N, "infinite", tol=1e-4)
    close(np.asarray(L[0]), np.asarray(L[-1]), "Schmidt values on the cell boundary", tol=1e-6)
    cell = [np.tensordot(np.diag(L[k]), G[k], ([1], [0])) for k in range(N)]
    e1, _ = gap(cell)
    close(e1, 1.0, "norm per cell", tol=1e-5)
    f = np.max(np.abs(np.linalg.eigvals(tm(ts, cell)))) / np.sqrt(e0 * e1)
    close(f, 1.0, "fidelity per cell between the original and the rebuilt state", tol=1e-5)
