from .rt import *
es = np.einsum


def layers(r, cx=None):
    a, b, ap, bp, m1, m2, s, t = [r.int(1, 4) for _ in range(8)]
    if r.coin(0.3): s = t
    f = lambda *sh: r.arr(sh, cx)
    r.note(dims=(a, b, ap, bp, m1, m2, s, t))
    return f(a, b, s), f(ap, bp, t), f(m1, m2, s, t), f(a, ap, m1), f(b, bp, m2)


def add_left(L, A, W, B): return es("acm,abs,mnst,cdt->bdn", L, A, W, B.conj(), optimize=True)
def add_right(R, A, W, B): return es("bdn,abs,mnst,cdt->acm", R, A, W, B.conj(), optimize=True)
def heff(L, W, R, x): return es("acm,abs,mnst,bdn->cdt", L, x, W, R, optimize=True)


def frozen(msg, *arrs):
    old = [x.copy() for x in arrs]

    def done():
        for k, (x, y) in enumerate(zip(arrs, old)): check(np.array_equal(x, y), msg + ": an input was modified", which=k)
    return done


@case("C03", "layers", ["mpsfunctions.addLayer", "mpsfunctions.addELayer", "mpsfunctions.initializeLayer"], 2)
def _(r):
    mf = mfmod()
    A, B, W, L, R = layers(r)
    fr = frozen("addLayer", A, B, W, L, R)
    p = r.pick(1, 2)
    close(call("addLayer", mf.addLayer, L, A, W, B, p), add_left(L, A, W, B), "addLayer(+)")
    close(call("addLayer", mf.addLayer, R, A, W, B, -p), add_right(R, A, W, B), "addLayer(-)")
    s = A.shape[2]
    B2 = r.arr((B.shape[0], B.shape[1], s))
    close(call("addELayer", mf.addELayer, L, A, B2, p), es("acm,abs,cds->bdm", L, A, B2.conj(), optimize=True), "addELayer(+)")
    close(call("addELayer", mf.addELayer, R, A, B2, -p), es("bdm,abs,cds->acm", R, A, B2.conj(), optimize=True), "addELayer(-)")
    Wl, Wr = W[:1], W[:, :1]
    x, y = L[:, :, 0], R[:, :, 0]
    close(call("initializeLayer", mf.initializeLayer, A, x, B, Wl, p), add_left(x[:, :, None], A, Wl, B), "initializeLayer(+)")
    close(call("initializeLayer", mf.initializeLayer, A, y, B, Wr, -p), add_right(y[:, :, None], A, Wr, B), "initializeLayer(-)")
    fr()


@case("C03", "effective-hamiltonian", ["mpsfunctions.HAproductSingleSite", "mpsfunctions.HAproductSingleSiteMPS", "mpsfunctions.contractionH", "mpsfunctions.HAproductBond",
      "mpsfunctions.HAproductBondMatrix", "mpsfunctions.applyHbond", "mpsfunctions.contractionE", "mpsfunctions.HAproductZeroSite", "mpsfunctions.HAproductZeroSiteMat"], 2)
def _(r):
    mf = mfmod()
    a, b, m1, m2, s = [r.int(1, 4) for _ in range(5)]
    r.note(dims=(a, b, m1, m2, s))
    f = lambda *sh: r.arr(sh)
    A, W, L, R, x = f(a, b, s), f(m1, m2, s, s), f(a, a, m1), f(b, b, m2), f(a, b, s)
    fr = frozen("effective hamiltonian", A, W, L, R, x)
    want = heff(L, W, R, x)
    close(call("HAproductSingleSite", mf.HAproductSingleSite, L, W, R, x.reshape(-1)), want.reshape(-1), "HAproductSingleSite")
    close(call("HAproductSingleSiteMPS", mf.HAproductSingleSiteMPS, L, W, R, x), want, "HAproductSingleSiteMPS")
    close(call("contractionH", mf.contractionH, L, x, W, R), want, "contractionH")
    if s == 2: close(call("applyHsingleSite", mf.applyHsingleSite, L, W, R, x), want, "applyHsingleSite")
    ap, bp, t = [r.int(1, 4) for _ in range(3)]
    L2, R2, W2 = f(a, ap, m1), f(b, bp, m2), f(m1, m2, s, t)
    close(call("contractionH", mf.contractionH, L2, x, W2, R2), heff(L2, W2, R2, x), "contractionH (different bra)")
    Rm = f(b, bp, m1)
    close(call("contractionE", mf.contractionE, L2, x, Rm), es("acm,abs,bdm->cds", L2, x, Rm, optimize=True), "contractionE")
    y, R3 = f(a, a), f(a, a, m1)
    wb = es("acm,ab,bdm->cd", L, y, R3, optimize=True)
    close(call("HAproductBond", mf.HAproductBond, L, R3, y.reshape(-1)), wb.reshape(-1), "HAproductBond")
    close(call("HAproductBondMatrix", mf.HAproductBondMatrix, L, R3, y), wb, "HAproductBondMatrix")
    close(call("applyHbond", mf.applyHbond, L, R3, y), wb, "applyHbond")
    z = f(b, b)
    L1 = add_left(L, A, W, A)
    wr = es("acm,ab,bdm->cd", L1, z, R, optimize=True)
    close(call("HAproductZeroSite", mf.HAproductZeroSite, L, W, A, R, "right", z.reshape(-1)), wr.reshape(-1), "HAproductZeroSite right")
    close(call("HAproductZeroSiteMat", mf.HAproductZeroSiteMat, L, W, A, R, "right", z), wr, "HAproductZeroSiteMat right")
    R1 = add_right(R, A, W, A)
    wl = es("acm,ab,bdm->cd", L, y, R1, optimize=True)
    close(call("HAproductZeroSite", mf.HAproductZeroSite, L, W, A, R, "left", y.reshape(-1)), wl.reshape(-1), "HAproductZeroSite left")
    close(call("HAproductZeroSiteMat", mf.HAproductZeroSiteMat, L, W, A, R, "left", y), wl, "HAproductZeroSiteMat left")
    fr()


def chainof(r, N, obc, cx=None):
    a = [r.int(1, 3) for _ in range(N + 1)]
    m = [r.int(1, 3) for _ in range(N + 1)]
    s = [r.int(1, 3) for _ in range(N)]
    if obc: a[0] = a[N] = m[0] = m[N] = 1
    else: a[N], m[N] = a[0], m[0]
    A = [r.arr((a[k], a[k + 1], s[k]), cx) for k in range(N)]
    W = [r.arr((m[k], m[k + 1], s[k], s[k]), cx) for k in range(N)]
    return a, m, s, A, W


@case("C03", "chain-environments", ["mpsfunctions.getL", "mpsfunctions.getR", "mpsfunctions.getUCL", "mpsfunctions.getUCR", "mpsfunctions.contractMPO", "mpsfunctions.contractE"], 3)
def _(r):
    mf = mfmod()
    N = r.int(1, 5)
    obc = r.coin()
    a, m, s, A, W = chainof(r, N, obc)
    r.note(N=N, a=a, m=m, s=s)
    lb, rb = r.arr((a[0], a[0], m[0])), r.arr((a[N], a[N], m[N]))
    lb0, rb0 = lb.copy(), rb.copy()
    refL, refR = [lb], [rb]
    for k in range(N): refL.append(add_left(refL[-1], A[k], W[k], A[k]))
    for k in range(N - 1, -1, -1): refR.append(add_right(refR[-1], A[k], W[k], A[k]))
    obj = r.coin(0.4)
    X, Y = A, W
    if obj:
        M, H = mpsmod(), hmod()
        X = M.MPS(A)
        if r.coin() and hasattr(H.MPO, "fromlist"): Y = call("MPO.fromlist", H.MPO.fromlist, W)
    Ls = call("getL", mf.getL, X, Y, lb)
    Rs = call("getR", mf.getR, X, Y, rb)
    check(len(Ls) == N and len(Rs) == N, "number of environments")
    for k in range(N):
        close(Ls[k], refL[k + 1], "getL[%d]" % k)
        close(Rs[k], refR[k + 1], "getR[%d]" % k)
    close(call("getUCL", mf.getUCL, X, Y, lb), refL[N], "getUCL")
    close(call("getUCR", mf.getUCR, X, Y, rb), refR[N], "getUCR")
    # the energy does not depend on the cut
    e = [complex(np.sum(refL[k] * refR[N - k])) for k in range(N + 1)]
    for k in range(1, N + 1):
        got = complex(np.sum(np.asarray(Ls[k - 1]) * (refR[0] if k == N else np.asarray(Rs[N - 1 - k]))))
        close(got, e[0], "energy at cut %d" % k, tol=1e-8)
    check(np.array_equal(lb, lb0) and np.array_equal(rb, rb0), "boundary modified")
    # different bra
    b = [r.int(1, 3) for _ in range(N + 1)]
    B = [r.arr((b[k], b[k + 1], s[k])) for k in range(N)]
    i = r.int(0, N - 1)
    j = r.int(i, N - 1)
    r.note(i=i, j=j)
    L0, R0 = r.arr((a[i], b[i], m[i])), r.arr((a[j + 1], b[j + 1], m[j + 1]))
    x, y = L0, R0
    for k in range(i, j + 1): x = add_left(x, A[k], W[k], B[k])
    for k in range(j, i - 1, -1): y = add_right(y, A[k], W[k], B[k])
    close(call("contractMPO", mf.contractMPO, X, B, Y, L0, i, j, 1), x, "contractMPO(+)")
    close(call("contractMPO", mf.contractMPO, X, B, Y, R0, i, j, -1), y, "contractMPO(-)")
    x, y = L0, R0
    for k in range(i, j + 1): x = es("acm,abs,cds->bdm", x, A[k], B[k].conj(), optimize=True)
    for k in range(j, i - 1, -1): y = es("bdm,abs,cds->acm", y, A[k], B[k].conj(), optimize=True)
    L0c = L0.copy()
    close(call("contractE", mf.contractE, X, B, L0, i, j, 1), x, "contractE(+)")
    close(call("contractE", mf.contractE, X, B, R0, i, j, -1), y, "contractE(-)")
    check(np.array_equal(L0, L0c), "boundary modified")
    if j > i: refuses("contractMPO with reversed sites", mf.contractMPO, A, B, W, L0, j, i, 1)


@case("C03", "projected-environments", ["mpsfunctions.getLprojected", "mpsfunctions.getRprojected"], 1)
def _(r):
    mf = mfmod()
    N = r.int(1, 4)
    a, m, s, A, W = chainof(r, N, False)
    r.note(N=N, a=a, m=m, s=s)
    lb, rb = r.arr((a[0], a[0], m[0])), r.arr((a[N], a[N], m[N]))
    ld = [r.arr((a[k], a[k])) for k in range(N + 1)]
    rd = [r.arr((a[k], a[k])) for k in range(N + 1)]
    x, want = lb, []
    for k in range(N):
        x = np.array(add_left(x, A[k], W[k], A[k]))
        x = x.astype(complex)
        x[:, :, 0] -= np.trace(x[:, :, 0].dot(rd[k + 1])) * ld[k + 1]
        want.append(x)
    cx = any(np.iscomplexobj(q) for q in A + W + ld + rd + [lb, rb])
    if cx and not all(np.iscomplexobj(q) for q in A): raise Skip()
    got = call("getLprojected", mf.getLprojected, A, W, lb, ld, rd)
    for k in range(N): close(got[k], want[k], "getLprojected[%d]" % k)
    x = rb
    got = call("getRprojected", mf.getRprojected, A, W, rb, ld, rd)
    for k in range(N):
        n = N - 1 - k
        x = np.array(add_right(x, A[n], W[n], A[n])).astype(complex)
        x[:, :, -1] -= np.trace(x[:, :, -1].dot(ld[n])) * rd[n]
        close(got[k], x, "getRprojected[%d]" % k)
