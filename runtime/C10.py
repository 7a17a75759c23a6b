from .rt import *
from .C09 import embed, dense, cp
import scipy.linalg as sl


def piece(mpo, n, tau):
    """the two-site piece recovered from the gate of a small step (principal logarithm)"""
    g = call("twoSiteGate", mpo.twoSiteGate, n, n + 1, tau)
    d1, d2 = mpo[n].shape[2], mpo[n + 1].shape[2]
    check(np.shape(g) == (d1, d2, d1, d2), "shape of the gate", got=np.shape(g))
    return sl.logm(g.reshape(d1 * d2, d1 * d2)) / tau


def model(r):
    h = hmod()
    N = r.int(2, 4)
    k = r.int(0, 5)
    n = N - 1
    R = lambda m: cp(r, m, False)
    r.note(N=N, model=k)
    if k == 0: return h.TFI(R(n), R(N), True)
    if k == 1: return h.XXZ(R(n), R(n), R(N), True)
    if k == 2: return h.SpinlessFermions(R(n), R(n), R(N), True)
    if k == 3: return h.XXZflipped(R(n), R(n), True, dtype=complex)
    if k == 4: return h.HubbardChain(R(N), R(n), R(n), R(N), R(N), True) if N < 4 else h.TFI_2(R(n), R(N), True)
    # a generic nearest-neighbour operator with site dependent dimensions
    ds = [r.int(1, 3) for _ in range(N)]
    cx = r.coin()
    M = [1] + [r.int(2, 4) for _ in range(n)] + [1]
    Ws = []
    for j in range(N):
        W = np.zeros((M[j], M[j + 1], ds[j], ds[j]), complex if cx else float)
        W[-1, :] = r.arr((M[j + 1], ds[j], ds[j]), cx) / 3
        W[:, 0] = r.arr((M[j], ds[j], ds[j]), cx) / 3
        if j > 0: W[0, 0] = np.eye(ds[j])
        if j < N - 1: W[-1, -1] = np.eye(ds[j])
        Ws.append(W)
    return h.MPO.fromlist(Ws)


@case("C10", "pieces", ["MPO.twoSiteGate"], 3)
def _(r):
    with quiet(): m = model(r)
    N = len(m)
    ds = [m[k].shape[2] for k in range(N)]
    tau = r.pick(1.0, -1j) * r.uni(-0.04, 0.04)
    if abs(tau) < 1e-3: tau = 1e-2
    r.note(tau=tau)
    tot = 0
    W0 = [np.array(m[k]) for k in range(N)]
    for n in range(N - 1):
        p = piece(m, n, tau)
        tot = tot + np.kron(np.kron(np.eye(int(np.prod(ds[:n]))), p), np.eye(int(np.prod(ds[n + 2:]))))
    H = mpo_dense(W0)
    n = int(np.prod(ds))
    close(tot, H.reshape(n, n), "sum of the pieces over all bonds", tol=1e-7)
    check(all(np.array_equal(m[k], W0[k]) for k in range(N)), "operator modified")


@case("C10", "gate", ["MPO.twoSiteGate"], 3)
def _(r):
    with quiet(): m = model(r)
    N = len(m)
    n = r.int(0, N - 2)
    tau = r.pick(1.0, -1j, 1.0 + 0.5j) * r.uni(-1.5, 1.5)
    r.note(n=n, tau=tau)
    h = piece(m, n, 1e-2)
    d1, d2 = m[n].shape[2], m[n + 1].shape[2]
    close(call("twoSiteGate", m.twoSiteGate, n, n + 1, tau), sl.expm(tau * h).reshape(d1, d2, d1, d2), "the gate is not the exponential of the time step times the piece", tol=1e-8)


@case("C10", "step", ["MPO.twoSiteGate", "MPS.applyTwoSiteGate"], 1.5)
def _(r):
    with quiet(): m = model(r)
    N = len(m)
    ds = [m[k].shape[2] for k in range(N)]
    psi = rstate(r, N=N, ds=ds, Dmax=3)
    v = vec(psi).reshape(ds)
    n = r.int(0, N - 2)
    tau = -1j * r.uni(-0.5, 0.5)
    g = call("twoSiteGate", m.twoSiteGate, n, n + 1, tau)
    call("applyTwoSiteGate", psi.applyTwoSiteGate, g, n, Dmax=200)
    h = piece(m, n, 1e-2)
    full = np.kron(np.kron(np.eye(int(np.prod(ds[:n]))), sl.expm(tau * h)), np.eye(int(np.prod(ds[n + 2:]))))
    w = v.reshape(-1).dot(full)         # row index: incoming
    u = vec(psi).reshape(-1)
    if np.linalg.norm(w) < 1e-8: raise Skip()
    close(u / np.linalg.norm(u), w / np.linalg.norm(w), "state after one gate of the step", tol=1e-7)
