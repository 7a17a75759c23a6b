from .rt import *
es = np.einsum


def E(direction, U, L, x):
    """x[upper, lower] through one site"""
    if direction > 0: return es("ac,abs,cds->bd", x, U, L.conj(), optimize=True)
    return es("bd,abs,cds->ac", x, U, L.conj(), optimize=True)


def cell(r, N, same=False, cx=None, D0=None, Dm=4):
    a = [r.int(1, Dm) for _ in range(N + 1)]
    if D0: a[0] = D0
    a[N] = a[0]
    s = [r.int(1, 3) for _ in range(N)]
    return a, s, [r.arr((a[k], a[k + 1], s[k]), cx) for k in range(N)]


@case("C04", "single-site", ["mpsfunctions.TransferOperator", "mpsfunctions.MixedTransferOperator", "mpsfunctions.GeneralizedMatrixVectorProduct"], 3)
def _(r):
    mf, M = mfmod(), mpsmod()
    a, b, ap, bp, s = [r.int(1, 4) for _ in range(5)]
    U, L = r.arr((a, b, s)), r.arr((ap, bp, s))
    d = r.pick(1, -1, 3)
    n = (a, ap) if d > 0 else (b, bp)
    n1 = (a, a) if d > 0 else (b, b)
    r.note(dims=(a, b, ap, bp, s), dir=d)
    x, y = r.arr(n), r.arr(n1)
    x0 = x.copy()
    asobj = lambda t: M.MPS([t]) if r.coin(0.3) else t
    want = E(d, U, L, x).reshape(-1)
    close(call("MixedTransferOperator", mf.MixedTransferOperator, d, asobj(U), asobj(L), x.reshape(-1)), want, "MixedTransferOperator")
    close(call("GeneralizedMatrixVectorProduct", mf.GeneralizedMatrixVectorProduct, d, L, U, x.reshape(-1)), want, "GeneralizedMatrixVectorProduct")
    close(call("TransferOperator", mf.TransferOperator, d, asobj(U), y.reshape(-1)), E(d, U, U, y).reshape(-1), "TransferOperator")
    check(np.array_equal(x, x0), "vector modified")
    # adjointness through the bilinear pairing of boundary vectors
    p, q = r.arr((a, ap)), r.arr((b, bp))
    lhs = np.dot(mf.MixedTransferOperator(1, U, L, p.reshape(-1)), q.reshape(-1))
    rhs = np.dot(p.reshape(-1), mf.MixedTransferOperator(-1, U, L, q.reshape(-1)))
    close(lhs, rhs, "pairing", tol=1e-9)


@case("C04", "multi-site-object-refused", ["mpsfunctions.TransferOperator"], 0.2)
def _(r):
    mf, M = mfmod(), mpsmod()
    m = M.MPS([r.arr((2, 2, 2)), r.arr((2, 2, 2))])
    t = r.arr((2, 2, 2))
    x = r.arr((4,))
    refuses("TransferOperator with a two-site object", mf.TransferOperator, 1, m, x)
    refuses("MixedTransferOperator with a two-site object", mf.MixedTransferOperator, 1, m, t, x)
    refuses("MixedTransferOperator with a two-site object", mf.MixedTransferOperator, 1, t, m, x)


@case("C04", "unit-cell", ["mpsfunctions.UnitcellTransferOperator", "mpsfunctions.MixedUnitcellTransferOperator", "mpsfunctions.computeDensity"], 3)
def _(r):
    mf, M = mfmod(), mpsmod()
    N = r.int(1, 4)
    a, s, U = cell(r, N)
    b = [r.int(1, 3) for _ in range(N + 1)]
    b[N] = b[0]
    L = [r.arr((b[k], b[k + 1], s[k])) for k in range(N)]
    d = r.pick(1, -1)
    r.note(a=a, b=b, s=s, dir=d)
    x, y = r.arr((a[0], b[0])), r.arr((a[0], a[0]))
    y0 = y.copy()
    w1, w2 = x, y
    dens = [y]
    for k in (range(N) if d > 0 else range(N - 1, -1, -1)):
        w1, w2 = E(d, U[k], L[k], w1), E(d, U[k], U[k], w2)
        dens.append(w2)
    if d < 0: dens = dens[::-1]
    X = M.MPS(U) if r.coin(0.3) else U
    close(call("UnitcellTransferOperator", mf.UnitcellTransferOperator, d, X, y.reshape(-1)), w2.reshape(-1), "UnitcellTransferOperator")
    close(call("MixedUnitcellTransferOperator", mf.MixedUnitcellTransferOperator, d, X, L, x.reshape(-1)), w1.reshape(-1), "MixedUnitcellTransferOperator")
    got = call("computeDensity", mf.computeDensity, y, X, d)
    check(len(got) == N + 1, "number of densities")
    for k in range(N + 1): close(got[k], dens[k], "computeDensity[%d]" % k)
    check(np.array_equal(y, y0), "vector modified")


@case("C04", "pseudo", ["mpsfunctions.pseudoTransferOperator", "mpsfunctions.OneMinusPseudoTransferOperator", "mpsfunctions.pseudoUnitcellTransferOperator", "mpsfunctions.OneMinusPseudoUnitcellTransferOperator"], 3)
def _(r):
    mf = mfmod()
    D, s = r.int(1, 4), r.int(1, 3)
    Dl = r.int(1, 4)
    A = r.arr((D, D, s))
    L = r.arr((Dl, Dl, s))
    x, rr, ll = r.arr((D, D)), r.arr((D, D)), r.arr((D, D))
    d = r.pick(1, -1)
    k = r.pick(0.0, 0.0, 1e-10, -1e-10, r.uni(-3, 3), r.uni(-3, 3))
    r.note(D=D, Dl=Dl, s=s, dir=d, momentum=k)
    proj = (np.sum(x * rr) * ll) if d > 0 else (np.sum(x * ll) * rr)
    close(call("pseudoTransferOperator", mf.pseudoTransferOperator, A, rr, ll, d, x.reshape(-1)), (E(d, A, A, x) - proj).reshape(-1), "pseudoTransferOperator")
    x2, r2, l2 = r.arr((D, Dl)), r.arr((D, Dl)), r.arr((D, Dl))
    if abs(k) < 1e-8: want = x2 - E(d, A, L, x2) + ((np.sum(x2 * r2) * l2) if d > 0 else (np.sum(x2 * l2) * r2))
    else: want = x2 - np.exp(1j * k) * E(d, A, L, x2)
    close(call("OneMinusPseudoTransferOperator", mf.OneMinusPseudoTransferOperator, A, L, r2, l2, d, k, x2.reshape(-1)), want.reshape(-1), "OneMinusPseudoTransferOperator")
    N = r.int(1, 3)
    a, s, U = cell(r, N)
    y = r.arr((a[0], a[0]))
    ld = [r.arr((a[i], a[i])) for i in range(N + 1)]
    rd = [r.arr((a[i], a[i])) for i in range(N + 1)]
    w = y
    for i in (range(N) if d > 0 else range(N - 1, -1, -1)): w = E(d, U[i], U[i], w)
    proj = (np.sum(y * rd[-1]) * ld[-1]) if d > 0 else (np.sum(y * ld[0]) * rd[0])
    close(call("pseudoUnitcell", mf.pseudoUnitcellTransferOperator, d, U, ld, rd, y.reshape(-1)), (w - proj).reshape(-1), "pseudoUnitcellTransferOperator")
    close(call("OneMinusPseudoUnitcell", mf.OneMinusPseudoUnitcellTransferOperator, d, U, ld, rd, y.reshape(-1)), (y - w + proj).reshape(-1), "OneMinusPseudoUnitcellTransferOperator")


@case("C04", "linearity", ["mpsfunctions.MixedTransferOperator", "mpsfunctions.UnitcellTransferOperator", "mpsfunctions.pseudoTransferOperator"], 1)
def _(r):
    mf = mfmod()
    N = r.int(1, 3)
    a, s, U = cell(r, N)
    d = r.pick(1, -1)
    x, y = r.arr((a[0] ** 2,)), r.arr((a[0] ** 2,))
    al = r.scalar()
    f = lambda v: mf.UnitcellTransferOperator(d, U, v)
    close(f(al * x + y), al * f(x) + f(y), "linearity")


@case("C04", "solver-momentum", ["mpsfunctions.TDVPGMRES", "mpsfunctions.RENORMBLOCKHAMGMRES"], 0.6)
def _(r):
    mf = mfmod()
    D, s = r.int(1, 3), 2
    A = r.arr((D, D, s), True)
    A = A / np.sqrt(np.max(np.abs(np.linalg.eigvals(es("abs,cds->acbd", A, A.conj()).reshape(D * D, D * D))))) * 0.8
    k = r.pick(r.uni(-3, -0.1), r.uni(0.1, 3))
    d = r.pick(1, -1)
    b = r.arr((D, D), True)
    z = np.zeros((D, D))
    r.note(D=D, momentum=k, dir=d)
    f = r.pick(mf.TDVPGMRES, mf.RENORMBLOCKHAMGMRES)
    x = call("linear solver", f, A, A, z, z, b, None, tolerance=1e-12, direction=d, momentum=k)
    close(x - np.exp(1j * k) * E(d, A, A, x), b, "solution of (1-exp(ik)E)x=b", tol=1e-6)
