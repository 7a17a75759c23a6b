"""C10: two-site gates of an operator partition its Hamiltonian."""
from .base import *
R = Registry()


def HM(): return world().load("lib.mpslib.Hamiltonians")


class Partial:
    """running sum of Kronecker products: h = P(i) after the terms below i"""
    at_exit = False
    def __init__(s, term, rows, cols): s.term, s.rows, s.cols = term, rows, cols
    def P(s, i): return Arr(A.group(T.symbol("P[%s]" % pint(i), s.rows + s.cols, True), [len(s.rows), len(s.cols)]))
    def check(s, i, locs, phase):
        if phase == "init":
            c = [k for k in s.assigned if k in locs and isinstance(locs[k], Arr) and locs[k].ndim == 2]
            if len(c) != 1: raise Unsupported("accumulated operator not found")
            s.var, s.lo, s.start = c[0], i, Arr(locs[c[0]].v)
            return
        ensure_eq("gate.term", locs[s.var], s.P(s.i) + s.term(s.i))
    def havoc(s, i, locs):
        s.i = i
        s.own = s.P(i)
        if s.at_exit: s.hi = i
        return {s.var: s.own}
    def lists(s): return [s.own]


def setup():
    """an operator of N sites, tensors W[n] (M[n], M[n+1], d[n], d[n]) with M[0] = M[N] = 1; bond n"""
    c = C()
    mix("Wl", "Wr")
    hm = HM()
    N, n = sint("N"), sint("n")
    assume(N >= 2); assume(n >= 0); assume(n + 1 < N)
    first, lastb = bool(n == 0), bool(n + 1 == N - 1)
    if first: n = 0
    M = dim("M")
    assume(M >= 2)
    if bool(M == 2): M = 2
    Wl = sym("Wl", 1 if first else dim("M0"), M, dim("d1"), dim("d1"))
    Wr = sym("Wr", M, 1 if lastb else dim("M2"), dim("d2"), dim("d2"))
    for k, x in (("M0", first), ("M2", lastb)):
        if not x: assume(dim(k) >= 2)

    def fn(p):
        q = SInt.mk(p)
        if q == n: return Wl
        if q == n + 1: return Wr
        raise Unsupported("tensor of another site used")
    m = hm.MPO.__new__(hm.MPO)
    m._mpo, m._N, m._dtype = VList.family(fn, N), N, A.CPLX
    return c, hm, m, N, n, first, lastb, M, Wl, Wr


@R.group("gate", ["MPO.twoSiteGate"])
def _():
    c, hm, m, N, n, first, lastb, M, Wl, Wr = setup()
    tau = cscalar("tau") if c.choose(2) else rscalar("tau")
    row = lambda s: Wl[-1, s, :, :]
    col = lambda s: Wr[s, 0, :, :]
    term = lambda s: A.kron(row(s), col(s))
    h0 = term(0)
    g = A._full(h0.v)
    exps = []

    def expm(x):
        e = Arr(A.group(T.symbol("expm", g[0] + g[1], True), [len(g[0]), len(g[1])]))
        exps.append((x, e))
        return e
    pt = []

    def loop(rng, locs, lid):
        pt.append(Partial(term, g[0], g[1]))
        return pt[-1]
    c.data["loop_handler"] = loop
    sp = A.Namespace("scipy", linalg=A.Namespace("linalg", expm=expm))
    args = (n, n + 1) if c.choose(2, "order") == 0 else (n + 1, n)
    with patched(hm, sp=sp):
        G = returned("twoSiteGate", call("twoSiteGate", m.twoSiteGate, args[0], args[1], tau))
    C().ob("gate.one-exponential", len(exps) == 1, "engine")
    x, e = exps[0]
    # the piece: onsite terms of the two sites with weight 1 at the chain ends and 1/2 inside, every bond term once
    fl = 1.0 if first else 0.5
    fr = 1.0 if lastb else 0.5
    if pt:
        p = pt[0]
        lo, hi = p.lo, getattr(p, "hi", None)
        if hi is None: raise Unsupported("no exit of the summation loop")
        # the loop covers lo..hi-1; what is before it starts the sum, what follows is added after it
        C().ob("gate.sum-starts", lo == 1, "engine", "summation starts at %s" % lo)
        ensure_eq("gate.first-term", p.start, h0 * fl)
        done = bool(hi == M)
        if not done: ensure("gate.sum-ends", hi == M - 1)
        want = p.P(hi)
        if not done: want = want + term(M - 1) * fr
        else: C().ob("gate.last-weight", fr == 1.0, "engine", "the last term enters with weight 1")
        ensure_eq("gate.piece", x, want * tau)
    else:
        # M = 2: no bond terms, or the last term in the loop only
        ensure("gate.no-loop", M == 2)
        ensure_eq("gate.piece", x, (h0 * fl + term(1) * fr) * tau)
    d1, d2 = dim("d1"), dim("d2")
    ensure_eq("gate.index-order", G, A.reshape(e, (d1, d2, d1, d2)))
    ensure_frame("gate.frame", Wl, Wr)


def explicit(M, which):
    """bounded: M operator channels"""
    c, hm, m, N, n, first, lastb, M_, Wl, Wr = setup()
    assume(M_ == M)
    tau = cscalar("tau") if c.choose(2) else rscalar("tau")
    # rebuild with a literal bond dimension
    Wl, Wr = sym("Wl", Wl.shape[0], M, dim("d1"), dim("d1")), sym("Wr", M, Wr.shape[1], dim("d2"), dim("d2"))
    m._mpo = VList.family(lambda p: Wl if SInt.mk(p) == n else Wr, N)
    term = lambda s: A.kron(Wl[-1, s, :, :], Wr[s, 0, :, :])
    exps = []

    def expm(x):
        g = A._full(A.toarr(x).v)
        e = Arr(A.group(T.symbol("expm", g[0] + g[1], True), [len(g[0]), len(g[1])]))
        exps.append((x, e))
        return e
    with patched(hm, sp=A.Namespace("scipy", linalg=A.Namespace("linalg", expm=expm))):
        G = returned("twoSiteGate", call("twoSiteGate", m.twoSiteGate, n, n + 1, tau))
    w = term(0) * (1.0 if first else 0.5) + term(M - 1) * (1.0 if lastb else 0.5)
    for s in range(1, M - 1): w = w + term(s)
    ensure_eq("gate.bounded.piece", exps[0][0], w * tau)
    d1, d2 = dim("d1"), dim("d2")
    ensure_eq("gate.bounded.index-order", G, A.reshape(exps[0][1], (d1, d2, d1, d2)))


R.fallback("gate", "2 to 4 operator channels")(lambda: explicit(2 + C().choose(3), None))


@R.group("lemma.partition", ["(lemma) the pieces of all bonds sum to the operator"])
def _():
    """standard form (last row / first column, identities in the corners): partial operators R_n = W_n R_(n+1) satisfy
    R_n[0] = 1, R_n[-1] = H_n with H_n = o_n + sum_s a_n,s (x) b_(n+1),s + H_(n+1); the pieces
    p_n = w_n o_n + sum_s a b + v_n o_(n+1), w = 1 at n=0 and 1/2 else, v = 1 at n = N-2 and 1/2 else, have the partial sums
    S_n = p_n + .. + p_(N-2) = H_n - (1 - w_n) o_n, so that S_0 = H"""
    o, o1, ab, H1 = [sym(x, dim("D"), dim("D")) for x in ("o", "o1", "ab", "H1")]
    half = Poly.const(1) / Poly.const(2)
    w = [A.toarr(1), A.toarr(half)][C().choose(2)]        # leftmost bond or inside
    if C().choose(2):      # induction step: S_(n+1) = H_(n+1) - o_(n+1)/2 (bond n+1 is inside), v_n = 1/2
        S1 = H1 - o1 * 0.5
        p = o * w + ab + o1 * 0.5
        H = o + ab + H1
        ensure_eq("lemma.partition.step", p + S1, H - (A.toarr(1) - w) * o)
    else:                  # base n = N-2: H_(N-1) = o_(N-1), v = 1
        p = o * w + ab + o1
        ensure_eq("lemma.partition.base", p, (o + ab + o1) - (A.toarr(1) - w) * o)
