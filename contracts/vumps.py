"""VUMPS (variational optimisation of a uniform state): one iteration hands the eigensolvers environments of the current tensors that
hold the energy per site exactly once, whatever the tensors are; the tensors it leaves behind are isometric."""
from .base import *
from .callee import *
from .C18 import herm, iso_left, iso_right


def EN(): return world().load("lib.mpslib.engines")


def density(name, D):
    """positive matrix of unit trace"""
    g = sym(name, D, D)
    P = spec([g, A.conj(g)], ["ak", "bk"], "ab")
    T.add_rule("tr", T.einsum([P.v], [list("aa")], []), T.scalar(Poly.const(1)))
    return P


class Uniform:
    """single-site operator of nearest-neighbour form: h on a site, sum_n a_n (x) b_n on neighbouring sites"""
    def __init__(s, bonds=True, cx=True, wx=True):
        C().data["kinds"] = dict({k: cx for k in ("A", "B", "C", "AC", "Gr", "Gl", "r0", "l0")}, **{k: wx for k in "hab"}, **{k: cx or wx for k in ("Xl", "Xr")})
        s.wx = wx
        s.none, s.D, s.d, s.K = not bonds, dim("D"), dim("d"), dim("K") if bonds else 0
        s.h, s.a, s.b = sym("h", s.d, s.d), sym("a", s.K, s.d, s.d), sym("b", s.K, s.d, s.d)
        s.A, s.B = sym("A", s.D, s.D, s.d), sym("B", s.D, s.D, s.d)
        s.C, s.AC = sym("C", s.D, s.D), sym("AC", s.D, s.D, s.d)
        e = T.einsum
        T.add_rule("A+A=1", e([s.A.v, T.conj(s.A.v)], [list("abs"), list("acs")], list("bc")), T.eye(s.D, None, True))
        T.add_rule("BB+=1", e([s.B.v, T.conj(s.B.v)], [list("abs"), list("cbs")], list("ac")), T.eye(s.D, None, True))
        s.r, s.l = density("Gr", s.D), density("Gl", s.D)
        T.add_rule("E(r)=r", e([s.r.v, s.A.v, T.conj(s.A.v)], [list("bd"), list("abs"), list("cds")], list("ac")), s.r.v)
        T.add_rule("E(l)=l", e([s.l.v, s.B.v, T.conj(s.B.v)], [list("ac"), list("abs"), list("cds")], list("bd")), s.l.v)

    def W(s):
        w = A.np_zeros((s.K + 2, s.K + 2, s.d, s.d), dtype=A.CPLX if s.wx else A.FLOAT)
        w[0, 0, :, :] = A.np_eye(s.d)
        w[-1, -1, :, :] = A.np_eye(s.d)
        w[-1, 0, :, :] = s.h
        if not s.none:
            w[-1, 1:-1, :, :] = s.a
            w[1:-1, 0, :, :] = s.b
        return w

    def energy(s, t, left=None, right=None):
        """expectation value per site: local term and bond term, each once"""
        den, out = ([right], ["bd"]) if right is not None else ([left], ["ac"])
        lab = ["abs", "st", "adt", "bd"] if right is not None else ["abs", "st", "cbt", "ac"]
        x = spec([t, s.h, A.conj(t)] + den, lab, "")
        if s.none: return x
        two = spec([t, t], ["abs", "bcu"], "acsu")
        lab = ["acsu", "nst", "nuv", "adtv", "cd"] if right is not None else ["acsu", "nst", "nuv", "dctv", "ad"]
        return x + spec([two, s.a, s.b, A.conj(two)] + den, lab, "")


def grown(s, name, x, d, e):
    """adding a site changes the environment by the energy times the identity, in the energy channel"""
    t = s.A if d > 0 else s.B
    want = Arr(x.v)
    ch = 0 if d > 0 else -1
    want[:, :, ch] = x[:, :, ch] + A.np_eye(s.D) * e
    ensure_shape(name + ".shape", x, (s.D, s.D, s.K + 2))
    ensure_eq(name, spec_addlayer(x, t, s.W(), t, d), want)
    ident = x[:, :, -1 if d > 0 else 0]
    ensure_eq(name + ".identity", ident, A.np_eye(s.D))


def constructor(pre, bonds=True, cx=True, wx=True):
    E_, c = EN(), C()
    s = Uniform(bonds, cx, wx)
    W = s.W()
    hm = world().load("lib.mpslib.Hamiltonians")
    mpo = hm.MPO.__new__(hm.MPO)
    mpo._mpo, mpo._N, mpo._dtype = VList([W]), 1, A.CPLX if wx else A.FLOAT
    e = E_.VUMPSengine.__new__(E_.VUMPSengine)
    start = VList([s.AC])
    call("constructor", e.__init__, start, mpo, "F")
    ws = e._mpo._mpo
    ensure(pre + ".operator-length", len(ws) == 3)
    ensure_eq(pre + ".bulk-operator", ws[1], s.W())
    c.ob(pre + ".own-state", e._mps is not start, "engine", "the given list is optimised in place")
    ensure_eq(pre + ".operator-untouched", mpo._mpo[0], s.W())
    return s, e


def step(pre):
    c = C()
    MF()
    bonds, solver, svd, at_fixed, cx, wx = [(True, "AR", False, False, True, True), (True, "LAN", True, False, True, False), (False, "AR", True, True, True, True),
                                            (True, "LAN", False, True, True, True), (True, "AR", False, False, False, True), (True, "AR", False, False, False, False)][c.choose(6)]
    s, e = constructor(pre, bonds, cx, wx)
    mf = MF()
    e._A, e._B, e._mat, e._mps = s.A, s.B, s.C, VList([s.AC])
    e._r, e._l = sym("r0", s.D, s.D), sym("l0", s.D, s.D)
    e._solver, e._svd = solver, svd
    opts = dict(_tol=rscalar("tol"), _numeig=sint("numeig"), _ncv=sint("ncv"), _lgmrestol=rscalar("lg"), _Nmaxlgmres=sint("Nmg"), _artol=rscalar("artol"), _artol_=rscalar("artol2"),
                _arnumvecs=1, _arncv=sint("arncv"), _Ndiag=sint("Ndiag"), _nmaxlan=sint("nml"), _landelta=rscalar("ld"), _epsilon=rscalar("eps"), _it=sint("it"))
    for k, v in opts.items(): setattr(e, k, v)
    el, er = s.energy(s.A, right=s.r), s.energy(s.B, left=s.l)
    seen = {}
    nC, nAC = sym("nC", s.D, s.D), sym("nAC", s.D, s.D, s.d)
    AL, BR = sym("AL", s.D, s.D, s.d), sym("BR", s.D, s.D, s.d)
    ei = T.einsum
    if at_fixed:
        # a solution already in canonical form: AC = AL C = C BR
        T.add_rule("AL+AL=1", ei([AL.v, T.conj(AL.v)], [list("abs"), list("acs")], list("bc")), T.eye(s.D, None, True))
        T.add_rule("BRBR+=1", ei([BR.v, T.conj(BR.v)], [list("abs"), list("cbs")], list("ac")), T.eye(s.D, None, True))
        T.add_rule("CBR=ALC", ei([nC.v, BR.v], [list("ax"), list("xbs")], list("abs")), ei([AL.v, nC.v], [list("axs"), list("xb")], list("abs")), both=True)
        nAC = spec([AL, nC], ["axs", "xb"], "abs")

    def TMeigs(tensor, direction, numeig, init=None, nmax=6000, tolerance=1e-10, ncv=100, which="LR"):
        if which not in ("LR", "LM"): raise Unsupported("which=%s" % which)
        for t, d, P in ((s.A, -1, s.r), (s.B, 1, s.l), (s.A, 1, A.np_eye(s.D)), (s.B, -1, A.np_eye(s.D))):
            if bool(direction > 0) == (d > 0) and T.equal(tensor.v, t.v)[0]:
                return A.toarr(1), A.reshape(P, (s.D * s.D,)) * cscalar(c.fresh("kappa")), numeig
        raise Unsupported("eigenvectors of another tensor")

    def equation(U, L, r, l, inhom, x0, tolerance=1e-10, maxiteration=200, direction=1, momentum=0.0):
        """contract of RENORMBLOCKHAMGMRES (block-equation, C04): X - E(X) + <X, p> q = inhom; E's fixed points are q and f"""
        d = 1 if direction > 0 else -1
        t, f = (s.A, s.r) if d > 0 else (s.B, s.l)
        p, q = (r, l) if d > 0 else (l, r)
        c.ob(pre + ".equation.tensors", T.equal(U.v, t.v)[0] and T.equal(L.v, t.v)[0] and momentum == 0, "engine", "linear equation of other tensors")
        ensure_eq(pre + ".equation.fixed-point", q, A.np_eye(s.D))
        pp = [x for x in (s.r, s.l) if T.equal(p.v, x.v)[0]]
        c.ob(pre + ".equation.projection", len(pp) == 1, "engine", "the projection is no density of unit trace")
        ensure_eq(pre + ".equation.projected", spec([inhom, f], ["ab", "ab"], ""), A.toarr(0))
        x = sym("X" + ("l" if d > 0 else "r"), s.D, s.D)
        # lemma vumps.equation: <X, p> = 0, so X - E(X) = inhom
        one = [list("ab"), list("acs"), list("bds")] if d > 0 else [list("ab"), list("cas"), list("dbs")]
        T.add_rule("equation", ei([x.v, t.v, T.conj(t.v)], one, list("cd")), (x - inhom).v, both=False)
        if "eq%d" % d in seen: c.ob(pre + ".equation.once", False, "engine")
        seen["eq%d" % d] = x
        return x

    def environments(L, W, R):
        ensure_eq(pre + ".operator", W, s.W())
        if "L" in seen:
            ensure_eq(pre + ".same-left", L, seen["L"]); ensure_eq(pre + ".same-right", R, seen["R"])
            return
        seen["L"], seen["R"] = Arr(L.v), Arr(R.v)
        grown(s, pre + ".left-environment", L, 1, el)
        grown(s, pre + ".right-environment", R, -1, er)

    def site(L, W, R, mps0, *a, **k):
        seen["site"] = 1
        environments(L, W, R)
        ensure_eq(pre + ".initial-tensor", mps0, s.AC)
        return rscalar("e1"), nAC

    def bond(L, W, t, R, mat0, position, *a, **k):
        seen["bond"] = 1
        environments(L, W, R)
        ensure_eq(pre + ".initial-matrix", mat0, s.C)
        ensure_eq(pre + ".bond-tensor", t, s.A if position == "right" else s.B)
        c.ob(pre + ".bond-position", position in ("right", "left"), "engine")
        return rscalar("e2"), nC

    hs, hb = sym("HAC", s.D, s.D, s.d), sym("HC", s.D, s.D)

    def apply_site(L, W, R, mps):
        """contract of HAproductSingleSiteMPS (C03)"""
        environments(L, W, R)
        c.ob(pre + ".gradient.site", T.equal(mps.v, s.AC.v)[0], "engine")
        return hs

    def apply_bond(L, W, t, R, position, mat):
        environments(L, W, R)
        c.ob(pre + ".gradient.bond", T.equal(mat.v, s.C.v)[0] and position == "right" and T.equal(t.v, s.A.v)[0], "engine")
        return hb

    def unavailable(*a, **k): raise Unsupported("other solver")
    U1, U2 = sym("UC", s.D, s.D), None

    def uni(x, n="unitary"):
        v = x.v
        T.add_rule("U+U=1", ei([v, T.conj(v)], [list("ka"), list("kb")], list("ab")), T.eye(s.D, None, True))
        T.add_rule("UU+=1", ei([v, T.conj(v)], [list("ak"), list("bk")], list("ab")), T.eye(s.D, None, True))
        return x

    def polar(a, side="right"):
        """contract of scipy.linalg.polar: the unitary (isometric) factor; for an isometry times M it is the isometry times M's factor"""
        m, n = a.shape
        if "UC" not in seen: seen["UC"] = uni(U1)
        UC = seen["UC"]
        if T.deq(pint(m), pint(n)) and T.equal(a.v, nC.v)[0]:
            return UC, sym(c.fresh("pos"), s.D, s.D)
        if side == "right":
            x = sym(c.fresh("PL"), s.D, s.d, s.D)
            T.add_rule("PL+PL", ei([x.v, T.conj(x.v)], [list("asb"), list("asc")], list("bc")), T.eye(s.D, None, True))
            shp = (s.D * s.d, s.D)
            if at_fixed and T.equal(a.v, A.reshape(A.transpose(nAC, (0, 2, 1)), shp).v)[0]: x = spec([AL, UC], ["axs", "xb"], "asb")
            ensure_shape(pre + ".polar.shape", a, shp)
            return A.reshape(x, shp), sym(c.fresh("pos"), s.D, s.D)
        if side == "left":
            x = sym(c.fresh("PR"), s.D, s.D, s.d)
            T.add_rule("PRPR+", ei([x.v, T.conj(x.v)], [list("abs"), list("cbs")], list("ac")), T.eye(s.D, None, True))
            shp = (s.D, s.D * s.d)
            if at_fixed and T.equal(a.v, A.reshape(nAC, shp).v)[0]: x = spec([UC, BR], ["ax", "xbs"], "abs")
            ensure_shape(pre + ".polar.shape", a, shp)
            return A.reshape(x, shp), sym(c.fresh("pos"), s.D, s.D)
        raise Unsupported("polar side %s" % side)

    def svd_(a, *x, **k):
        """contract of mpsfunctions.svd on the two products: unitary factors; for an isometry times a positive matrix Q = W S W+ they are isometry*W and W+"""
        m, n = a.shape
        w = uni(sym(c.fresh("W"), s.D, s.D))
        S = sym(c.fresh("S"), s.D, cx=False)
        if T.deq(pint(n), pint(s.D)):
            if at_fixed and T.equal(a.v, A.reshape(spec([nAC, A.conj(nC)], ["aks", "ck"], "asc"), (s.D * s.d, s.D)).v)[0]: u = spec([AL, w], ["axs", "xb"], "asb")
            else:
                u = sym(c.fresh("PL"), s.D, s.d, s.D)
                T.add_rule("PL+PL", ei([u.v, T.conj(u.v)], [list("asb"), list("asc")], list("bc")), T.eye(s.D, None, True))
            return A.reshape(u, (s.D * s.d, s.D)), S, herm(w)
        if T.deq(pint(m), pint(s.D)):
            if at_fixed and T.equal(a.v, A.reshape(spec([A.conj(nC), spec([nC, BR], ["ax", "xbs"], "abs")], ["ka", "kbs"], "abs"), (s.D, s.D * s.d)).v)[0]: v = spec([herm(w), BR], ["ax", "xbs"], "abs")
            else:
                v = sym(c.fresh("PR"), s.D, s.D, s.d)
                T.add_rule("PRPR+", ei([v.v, T.conj(v.v)], [list("abs"), list("cbs")], list("ac")), T.eye(s.D, None, True))
            return w, S, A.reshape(v, (s.D, s.D * s.d))
        raise Unsupported("svd of another matrix")
    solvers = dict(eigsh=site, eigshbond=bond, lanczos=unavailable, lanczosbond=unavailable) if solver == "AR" else dict(eigsh=unavailable, eigshbond=unavailable, lanczos=site, lanczosbond=bond)
    E_ = EN()
    sp = A.Namespace("scipy", linalg=A.Namespace("linalg", polar=polar))
    with patched(mf, TMeigs=TMeigs, RENORMBLOCKHAMGMRES=equation, svd=svd_, HAproductSingleSiteMPS=apply_site, HAproductZeroSiteMat=apply_bond, **solvers), patched(E_, sp=sp):
        out = returned("__doStep__", call("__doStep__", e._VUMPSengine__doStep__ if hasattr(e, "_VUMPSengine__doStep__") else e.__doStep__))
    c.ob(pre + ".solved", "site" in seen and "bond" in seen, "engine", "a solver was not called")
    ensure_eq(pre + ".energy", A.toarr(out[0]), el)
    ensure_eq(pre + ".left-deviation", A.toarr(out[1]), A.toarr(0))
    ensure_eq(pre + ".right-deviation", A.toarr(out[2]), A.toarr(0))
    ensure_eq(pre + ".gradient", A.toarr(e._gradnorm), A.norm(hs - spec([s.A, hb], ["axs", "xb"], "abs")))
    ensure_eq(pre + ".state", e._mps[0], nAC)
    ensure_eq(pre + ".centre", e._mat, nC)
    iso_left(pre + ".left-isometric", e._A)
    iso_right(pre + ".right-isometric", e._B)
    if at_fixed:
        ensure_eq(pre + ".gauge-left", e._A, AL)
        ensure_eq(pre + ".gauge-right", e._B, BR)
    ensure_frame(pre + ".frame", s.A, s.B, s.AC, s.C)
    return s, e


def simulate(pre):
    """the iterations start from the isometric forms of the given tensor; at most Nmax of them, until the gradient is below the threshold"""
    E_, c = EN(), C()
    MF()
    e = E_.VUMPSengine.__new__(E_.VUMPSengine)
    D, d = dim("D"), dim("d")
    t = sym("AC", D, D, d)
    e._mps, e._D, e._filename, e._it = VList([t]), D, "F", 1
    al, be, ld, rd = sym("A", D, D, d), sym("B", D, D, d), sym("l", D, D), sym("r", D, D)
    opts = dict(epsilon=1e-3, tol=rscalar("tol"), lgmrestol=rscalar("lg"), ncv=sint("ncv"), numeig=sint("numeig"), Nmaxlgmres=sint("Nmg"), artol=rscalar("artol"), arnumvecs=1, arncv=sint("arncv"),
                svd=c.choose(2) == 1, Ndiag=sint("Ndiag"), nmaxlan=sint("nml"), landelta=rscalar("ld"), solver=["AR", "LAN"][c.choose(2)], checkpoint=0)
    n, stop = [(1, None), (3, None), (4, 2), (12, None), (2, 2)][c.choose(5)]
    calls, gauges = [], []

    def regauge(tensor, gauge, *a, **k):
        c.ob(pre + ".regauged-tensor", T.equal(A.toarr(tensor).v, t.v)[0], "engine", "another tensor is brought into canonical form")
        gauges.append(gauge)
        return {"left": (al, ld), "right": (be, rd)}[gauge]

    def run(self):
        k = len(calls) + 1
        if not calls:
            ensure_eq(pre + ".left-form", self._A, al)
            ensure_eq(pre + ".right-form", self._B, be)
            ensure_eq(pre + ".unit-centre", self._mat, A.np_eye(D))
        for key, v in opts.items():
            if key == "checkpoint": continue
            got = getattr(self, "_" + key)
            c.ob(pre + ".option", got is v or isinstance(v, (str, int, float)) and got == v, "engine", "%s is not passed on" % key)
        self._gradnorm = 1e-4 if k == stop else 1.0
        calls.append(rscalar("e%d" % k))
        return calls[-1], 0.0, 0.0
    with patched(MF(), regauge=regauge), methods(E_.VUMPSengine, __doStep__=run):
        out = call("simulate", e.simulate, n, **opts)
    c.ob(pre + ".both-forms", sorted(gauges) == ["left", "right"], "engine")
    c.ob(pre + ".iterations", len(calls) == min(n, stop or n), "engine", "%d iterations" % len(calls))
    ensure_eq(pre + ".energy", A.toarr(out), calls[-1])


def lemma(pre):
    """X - E(X) + <X, p> 1 = b, <b, f> = 0, E+(f) = f, tr f = 1 imply <X, p> = 0"""
    D = dim("D")
    x, f, p, b, E = sym("x", D, D), sym("f", D, D), sym("p", D, D), sym("b", D, D), sym("E", D, D, D, D)
    T.add_rule("tr f", T.einsum([f.v], [list("aa")], []), T.scalar(Poly.const(1)))
    T.add_rule("E(f)=f", T.einsum([E.v, f.v], [list("abcd"), list("cd")], list("ab")), f.v)
    T.add_rule("<b,f>", spec([b, f], ["ab", "ab"], "").v, T.scalar(Poly.const(0)))
    xp = spec([x, p], ["ab", "ab"], "")
    pair = lambda y: spec([y, f], ["ab", "ab"], "")
    ensure_eq(pre + ".left", pair(x - spec([E, x], ["abcd", "ab"], "cd") + A.np_eye(D) * xp), xp)
    ensure_eq(pre + ".right", pair(b), A.toarr(0))


def gradient(pre):
    """one step of the gradient optimisation: environments as above, gradient = effective Hamiltonian minus twice the energy, the new tensor
    is a positive multiple of (state - step * gradient) / lambda; a rejected step repeats the last one with the new step size"""
    E_, c, mf = EN(), C(), MF()
    bonds, reject, same, cx, wx = [(True, False, True, True, True), (True, True, True, True, True), (False, False, False, True, True), (True, False, True, True, False)][c.choose(4)]
    s = Uniform(bonds, cx, wx)
    ei = T.einsum
    g, lam = sym("g", s.D, s.D, s.d), sym("lam", s.D, cx=False)
    c.data.setdefault("posvec", set()).update(("lam", "lamold"))
    s.A, s.B = spec([lam, g], ["a", "abs"], "abs"), spec([g, lam], ["abs", "b"], "abs")
    T.add_rule("A+A=1", ei([s.A.v, T.conj(s.A.v)], [list("abs"), list("acs")], list("bc")), T.eye(s.D, None, True))
    T.add_rule("BB+=1", ei([s.B.v, T.conj(s.B.v)], [list("abs"), list("cbs")], list("ac")), T.eye(s.D, None, True))
    T.add_rule("tr lam^2", ei([lam.v, lam.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))
    s.r = s.l = A.diag(lam * lam)
    el, er = s.energy(s.A, right=s.r), s.energy(s.B, left=s.l)
    W = s.W()
    e = E_.HomogeneousIMPSengine.__new__(E_.HomogeneousIMPSengine)
    D0 = s.D if same else dim("D0")
    t0 = sym("t0", D0, D0, s.d)
    alpha, alphas, ng, fac, ntol = rscalar("alpha"), [], [], rscalar("factor"), rscalar("normtol")
    opts = dict(factor=fac, itreset=sint("itreset"), normtol=ntol, epsilon=rscalar("eps"), tol=rscalar("tol"), lgmrestol=rscalar("lg"), ncv=sint("ncv"), numeig=sint("numeig"), Nmaxlgmres=sint("Nmg"),
                pinv=rscalar("pinv"), trunc=rscalar("trunc"))
    call("constructor", e.__init__, sint("Nmax"), t0, W, "F", alpha, alphas, ng, A.CPLX, **opts)
    ensure_eq(pre + ".bulk-operator", e._mpo[1], s.W())
    ensure_eq(pre + ".operator-untouched", W, s.W())
    Do = dim("Dold")
    old = dict(grad=sym("grad0", Do, Do, s.d), tensor=sym("tensor0", Do, Do, s.d), lam=sym("lamold", Do, cx=False))
    e._gradbackup, e._tensorbackup, e._lamold = old["grad"], old["tensor"], old["lam"]
    e._lam = sym("lam0", D0, cx=False)
    seen, new_alpha = {}, rscalar("step")

    def regauge(tensor, gauge, initial=None, **k):
        """contract of regauge (C18, symmetric)"""
        c.ob(pre + ".regauged", gauge == "symmetric" and T.equal(A.toarr(tensor).v, t0.v)[0], "engine", "another tensor is brought into canonical form")
        return g, lam, 0.0

    def equation(U, L, r, l, inhom, x0, tolerance=1e-10, maxiteration=200, direction=1, momentum=0.0):
        d = 1 if direction > 0 else -1
        t, f = (s.A, s.r) if d > 0 else (s.B, s.l)
        p, q = (r, l) if d > 0 else (l, r)
        c.ob(pre + ".equation.tensors", T.equal(U.v, t.v)[0] and T.equal(L.v, t.v)[0] and momentum == 0, "engine", "linear equation of other tensors")
        ensure_eq(pre + ".equation.fixed-point", q, A.np_eye(s.D))
        ensure_eq(pre + ".equation.projection", p, f)
        ensure_eq(pre + ".equation.projected", spec([inhom, f], ["ab", "ab"], ""), A.toarr(0))
        x = sym("X" + ("l" if d > 0 else "r"), s.D, s.D)
        one = [list("ab"), list("acs"), list("bds")] if d > 0 else [list("ab"), list("cas"), list("dbs")]
        T.add_rule("equation", ei([x.v, t.v, T.conj(t.v)], one, list("cd")), (x - inhom).v, both=False)
        seen["eq%d" % d] = seen.get("eq%d" % d, 0) + 1
        return x
    h = sym("H", s.D, s.D, s.d)

    def site(L, W_, R, vec):
        seen["site"] = 1
        ensure_eq(pre + ".operator", W_, s.W())
        ensure_eq(pre + ".state", A.reshape(vec, (s.D, s.D, s.d)), spec([lam, g, lam], ["a", "abs", "b"], "abs"))
        grown(s, pre + ".left-environment", L, 1, el)
        grown(s, pre + ".right-environment", R, -1, er)
        return A.reshape(h, (s.D * s.D * s.d,))

    state = spec([lam, g, lam], ["a", "abs", "b"], "abs")
    grad = h - state * (el * 2)

    def stepsize(alpha_, alpha, alphas, nxdots, normxopt, normxoptold, normtol, warmup, it, rescaledepth, factor, itPerDepth, itreset, reset):
        seen["norm"] = normxopt
        return new_alpha, sint("depth"), sint("ipd"), True, reject, False
    ut = world().load("lib.utils.utilities")
    with patched(mf, regauge=regauge, RENORMBLOCKHAMGMRES=equation, HAproductSingleSite=site, prepareTruncate=prepareTruncate), patched(ut, determineNewStepsize=stepsize):
        out = returned("__doGradStep__", call("__doGradStep__", e._HomogeneousIMPSengine__doGradStep__ if hasattr(e, "_HomogeneousIMPSengine__doGradStep__") else e.__doGradStep__))
    c.ob(pre + ".solved", seen.get("eq1") == 1 and seen.get("eq-1") == 1 and "site" in seen, "engine")
    ensure_eq(pre + ".energy", A.toarr(out[0]), el)
    ensure_eq(pre + ".gradient-norm", A.toarr(seen["norm"]), A.real(spec([grad, A.conj(grad)], ["abs", "abs"], "")))
    ensure_eq(pre + ".left-deviation", A.toarr(out[1]), A.toarr(0))
    ensure_eq(pre + ".right-deviation", A.toarr(out[2]), A.toarr(0))
    if reject: x, y, z = old["tensor"], old["grad"], old["lam"]
    else: x, y, z = state, grad, lam
    posray(pre + ".update", e._mps, spec([x - y * new_alpha, 1.0 / z], ["abs", "b"], "abs"))
    # what a later rejection goes back to
    ensure_eq(pre + ".kept-state", e._tensorbackup, x)
    ensure_eq(pre + ".kept-gradient", e._gradbackup, y)
    ensure_eq(pre + ".kept-weights", e._lamold, z)
    ensure(pre + ".dimension", e._D == (Do if reject else s.D))
    ensure_frame(pre + ".frame", t0)
