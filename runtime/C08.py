from .rt import *


def vnd(m): return vec(m).reshape(m.d)


def canon(m, msg, tol=1e-8):
    """left isometries before the centre bond, right isometries from it"""
    for k in range(m._position): check(left_err(m._tensors[k]) < tol, msg + ": tensor left of the centre is not a left isometry", site=k)
    for k in range(m._position, len(m)): check(right_err(m._tensors[k]) < tol, msg + ": tensor right of the centre is not a right isometry", site=k)


def g2(v, g, s):
    """gate[in1,in2,out1,out2] applied to axes s,s+1"""
    r = np.tensordot(v, g, ([s, s + 1], [0, 1]))
    return np.moveaxis(r, [-2, -1], [s, s + 1])


def rgate(r, d1, d2, cx):
    k = r.int(0, 2)
    n = d1 * d2
    if k == 0: return r.arr((d1, d2, d1, d2), cx)
    if k == 1: return r.unitary(n, cx).reshape(d1, d2, d1, d2)
    return (np.eye(n) + 0.1 * r.arr((n, n), cx)).reshape(d1, d2, d1, d2)


def parallel(a, b, msg, tol=1e-8):
    """a = positive * b"""
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if nb < 1e-9: raise Skip()
    check(na > 0, msg + ": zero")
    close(a / na, b / nb, msg, tol=tol)


@case("C08", "one-site", ["MPS.applyOneSiteGate"], 2)
def _(r):
    m = rstate(r, Nmax=6)
    v = vnd(m)
    s = r.int(0, len(m) - 1)
    pres = r.coin(0.7)
    g = r.arr((m.d[s], m.d[s]))
    g0 = g.copy()
    r.note(site=s, preserve=pres, cxg=bool(np.iscomplexobj(g)))
    call("applyOneSiteGate", m.applyOneSiteGate, g, s, preserve_position=pres)
    check(np.array_equal(g, g0), "gate modified")
    close(vnd(m), apply_op(v, g, s), "amplitudes after one-site gate", tol=1e-9 * max(1, np.linalg.norm(v)))
    check(np.all(np.isfinite(m._Z)), "norm factor")
    if pres:
        check(m._position == s + 1, "centre bond after gate", got=m._position)
        canon(m, "after one-site gate")
        close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix")


@case("C08", "two-site", ["MPS.applyTwoSiteGate"], 4)
def _(r):
    N = r.int(2, 6)
    m = rstate(r, N=N)
    v = vnd(m)
    s = r.int(0, N - 2)
    cx = r.coin()
    g = rgate(r, m.d[s], m.d[s + 1], cx)
    g0 = g.copy()
    D0 = m.D
    call_kw = r.pick({}, {"Dmax": 200}, {"Dmax": 200, "thresh": 1e-14})
    r.note(site=s, cxg=cx, kw=str(call_kw))
    tw, Dret = call("applyTwoSiteGate", m.applyTwoSiteGate, g, s, **call_kw)
    check(np.array_equal(g, g0), "gate modified")
    parallel(vnd(m), g2(v, g, s), "amplitudes after two-site gate")
    check(m._position == s + 1, "centre bond after gate", got=m._position)
    check(Dret == m.D[s + 1] == m._mat.shape[0], "reported bond dimension")
    check(abs(tw) < 1e-12 * max(1, np.linalg.norm(g)) ** 2, "discarded weight without truncation", tw=tw)
    canon(m, "after two-site gate")
    close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix")


@case("C08", "two-site-truncated", ["MPS.applyTwoSiteGate"], 4)
def _(r):
    N = r.int(2, 6)
    m = rstate(r, N=N, Dmax=5)
    call("position", m.position, 0); call("position", m.position, N)     # normalised Z*T.. with everything canonical
    s = r.int(0, N - 2)
    cx = r.coin()
    g = rgate(r, m.d[s], m.d[s + 1], cx)
    Dmax = r.int(1, 4)
    thresh = r.pick(1e-16, 1e-16, 1e-3, 0.1, 0.5, 5.0)
    v = vnd(m)
    z = abs(m._Z)
    w = g2(v, g, s) / z
    M = w.reshape(int(np.prod(m.d[:s + 1])), -1)
    U, S, V = np.linalg.svd(M, full_matrices=False)
    if np.any(np.abs(S - thresh) < 1e-6 * thresh): raise Skip()
    keep = max(1, min(Dmax, int(np.sum(S > thresh))))
    if keep < len(S) and S[keep - 1] - S[keep] < 1e-7: raise Skip()
    r.note(site=s, cxg=cx, Dmax=Dmax, thresh=thresh, keep=keep)
    tw, Dret = call("applyTwoSiteGate", m.applyTwoSiteGate, g, s, Dmax=Dmax, thresh=thresh)
    check(m.D[s + 1] <= Dmax, "bond dimension exceeds the maximum", D=m.D[s + 1])
    check(Dret == m.D[s + 1] == m._mat.shape[0] == m._mat.shape[1], "reported bond dimension")
    got = min(Dret, len(S))
    # numerically vanishing singular values may be kept or dropped
    if np.sum(S > max(thresh, 1e-12)) >= keep: check(Dret == keep, "retained bond dimension", got=Dret, expected=keep)
    close(tw, np.sum(S[keep:] ** 2), "discarded weight", tol=1e-9 * max(1, np.sum(S ** 2)))
    parallel(vnd(m).reshape(M.shape), (U[:, :keep] * S[:keep]).dot(V[:keep]), "amplitudes after truncated two-site gate")
    canon(m, "after truncated two-site gate")
    close(np.linalg.norm(m._mat), 1.0, "norm of the centre matrix")


@case("C08", "sequence", ["MPS.applyTwoSiteGate", "MPS.applyOneSiteGate"], 2)
def _(r):
    N = r.int(2, 5)
    m = rstate(r, N=N, Dmax=3)
    v = vnd(m)
    for _ in range(r.int(2, 5)):
        if r.coin(0.6):
            s = r.int(0, N - 2)
            g = r.unitary(m.d[s] * m.d[s + 1]).reshape(m.d[s], m.d[s + 1], m.d[s], m.d[s + 1])
            call("applyTwoSiteGate", m.applyTwoSiteGate, g, s, Dmax=200)
            v = g2(v, g, s)
        else:
            s = r.int(0, N - 1)
            g = r.unitary(m.d[s]) * r.scalar()
            call("applyOneSiteGate", m.applyOneSiteGate, g, s, preserve_position=r.coin())
            v = apply_op(v, g, s)
        parallel(vnd(m), v, "amplitudes in a sequence of gates", tol=1e-7)


@case("C08", "mpo-method", ["MPS.applyMPO"], 2)
def _(r):
    m = rstate(r, Nmax=4, Dmax=3)
    v = vnd(m)
    N = len(m)
    W = rmpo(r, N, m.d)
    W0 = [w.copy() for w in W]
    D0 = m.D
    call("applyMPO", m.applyMPO, W)
    n = v.size
    H = mpo_dense(W).reshape(n, n)
    want = v.reshape(n).dot(H).reshape(v.shape)
    close(vnd(m), want, "amplitudes after MPO", tol=1e-8 * max(1, np.linalg.norm(want)))
    check(all(np.array_equal(a, b) for a, b in zip(W, W0)), "MPO modified")
    call("position", m.position, r.int(0, N))
    close(vnd(m), want, "amplitudes after MPO and a sweep", tol=1e-8 * max(1, np.linalg.norm(want)))


@case("C08", "mpo-function", ["mpsfunctions.applyMPO"], 2)
def _(r):
    mf = mfmod()
    N = r.int(1, 4)
    ds = [r.int(1, 3) for _ in range(N)]
    ts = rtensors(r, N, ds, 3, r.coin())
    W = rmpo(r, N, ds)
    inp = r.coin()
    t0 = [t.copy() for t in ts]
    W0 = [w.copy() for w in W]
    v = vec_list(ts).reshape(ds)
    n = v.size
    want = v.reshape(n).dot(mpo_dense(W).reshape(n, n)).reshape(ds)
    r.note(N=N, d=ds, inplace=inp)
    out = call("applyMPO", mf.applyMPO, ts, W, inplace=inp)
    close(vec_list(out).reshape(ds), want, "amplitudes after MPO")
    for k in range(N): check(out[k].shape == (t0[k].shape[0] * W[k].shape[0], t0[k].shape[1] * W[k].shape[1], ds[k]), "shape of the result", site=k)
    if inp: check(out is ts or all(a is b for a, b in zip(out, ts)), "inplace=True must overwrite the argument")
    else: check(all(np.array_equal(a, b) for a, b in zip(ts, t0)), "argument modified")
    check(all(np.array_equal(a, b) for a, b in zip(W, W0)), "MPO modified")
