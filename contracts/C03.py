"""C03: environments and effective Hamiltonians are the exact tensor networks."""
from .base import *
R = Registry()


def env(name, *dims): return sym(name, *dims)


def layer_syms():
    mix("A", "B", "W", "L", R="L")
    a, b, ap, bp, m1, m2, s, t = [dim(x) for x in ("a", "b", "a'", "b'", "m1", "m2", "s", "t")]
    A_ = sym("A", a, b, s)
    B_ = sym("B", ap, bp, t)
    W = sym("W", m1, m2, s, t)
    L = sym("L", a, ap, m1)
    Rr = sym("R", b, bp, m2)
    return A_, B_, W, L, Rr


def bra(x): return A.conj(x)


def spec_addlayer(E, A_, W, B_, direction):
    if direction > 0: return spec([E, A_, W, bra(B_)], ["acm", "abs", "mnst", "cdt"], "bdn")
    return spec([E, A_, W, bra(B_)], ["bdn", "abs", "mnst", "cdt"], "acm")


@R.group("addLayer", ["mpsfunctions.addLayer"])
def _():
    mf = MF()
    A_, B_, W, L, Rr = layer_syms()
    ensure_eq("addLayer.left", call("addLayer", mf.addLayer, L, A_, W, B_, 1), spec_addlayer(L, A_, W, B_, 1))
    ensure_eq("addLayer.right", call("addLayer", mf.addLayer, Rr, A_, W, B_, -1), spec_addlayer(Rr, A_, W, B_, -1))
    ensure_frame("addLayer.frame", A_, B_, W, L, Rr)


def spec_addE(E, A_, B_, direction):
    if direction > 0: return spec([E, A_, bra(B_)], ["acm", "abs", "cds"], "bdm")
    return spec([E, A_, bra(B_)], ["bdm", "abs", "cds"], "acm")


@R.group("addELayer", ["mpsfunctions.addELayer"])
def _():
    mf = MF()
    mix("A", "B", "L", R="L")
    a, b, ap, bp, m, s = [dim(x) for x in ("a", "b", "a'", "b'", "m", "s")]
    A_, B_ = sym("A", a, b, s), sym("B", ap, bp, s)
    L, Rr = sym("L", a, ap, m), sym("R", b, bp, m)
    ensure_eq("addELayer.left", call("addELayer", mf.addELayer, L, A_, B_, 1), spec_addE(L, A_, B_, 1))
    ensure_eq("addELayer.right", call("addELayer", mf.addELayer, Rr, A_, B_, -1), spec_addE(Rr, A_, B_, -1))
    ensure_frame("addELayer.frame", A_, B_, L, Rr)


@R.group("initializeLayer", ["mpsfunctions.initializeLayer"])
def _():
    mf = MF()
    mix("A", "B", "Wl", "x", Wr=("Wl",), y="x")
    a, b, ap, bp, m, s, t = [dim(x) for x in ("a", "b", "a'", "b'", "m", "s", "t")]
    A_, B_ = sym("A", a, b, s), sym("B", ap, bp, t)
    W1, W2 = sym("Wl", 1, m, s, t), sym("Wr", m, 1, s, t)
    x, y = sym("x", a, ap), sym("y", b, bp)
    ensure_eq("initializeLayer.left", call("initializeLayer", mf.initializeLayer, A_, x, B_, W1, 1),
              spec([x, A_, W1, bra(B_)], ["ac", "abs", "mnst", "cdt"], "bdn"))
    ensure_eq("initializeLayer.right", call("initializeLayer", mf.initializeLayer, A_, y, B_, W2, -1),
              spec([y, A_, W2, bra(B_)], ["bd", "abs", "mnst", "cdt"], "acm"))


def heff(L, W, Rr, psi): return spec([L, psi, W, Rr], ["acm", "abs", "mnst", "bdn"], "cdt")


@R.group("contractionH", ["mpsfunctions.contractionH", "mpsfunctions.HAproductSingleSiteMPS"])
def _():
    mf = MF()
    A_, B_, W, L, Rr = layer_syms()
    ensure_eq("contractionH", call("contractionH", mf.contractionH, L, A_, W, Rr), heff(L, W, Rr, A_))
    ensure_eq("HAproductSingleSiteMPS", call("HA", mf.HAproductSingleSiteMPS, L, W, Rr, A_), heff(L, W, Rr, A_))
    ensure_frame("HA.frame", A_, W, L, Rr)


@R.group("HAproductSingleSite", ["mpsfunctions.HAproductSingleSite"])
def _():
    mf = MF()
    mix("A", "W", "L", "R")
    a, b, m1, m2, s = [dim(x) for x in ("a", "b", "m1", "m2", "s")]
    A_ = sym("A", a, b, s)
    W = sym("W", m1, m2, s, s)
    L, Rr = sym("L", a, a, m1), sym("R", b, b, m2)
    v = A.reshape(A_, (a * b * s,))
    got = call("HAproductSingleSite", mf.HAproductSingleSite, L, W, Rr, v)
    ensure_shape("HAproductSingleSite.shape", got, (a * b * s,))
    ensure_eq("HAproductSingleSite", A.reshape(got, (a, b, s)), heff(L, W, Rr, A_))


@R.group("HAproductSingleSite.two-site-tensor", ["mpsfunctions.HAproductSingleSite"])
def _():
    # the two-site optimisation passes fused legs: site tensor of shape (a, b, s1*s2) with the merged operator
    mf = MF()
    mix("A", "W", "L", R="L")
    a, b, m1, m2, m3, s1, s2 = [dim(x) for x in ("a", "b", "m1", "m2", "m3", "s1", "s2")]
    A_ = sym("A", a, b, (s1, s2))
    W1, W2 = sym("W1", m1, m2, s1, s1), sym("W2", m2, m3, s2, s2)
    W = A.reshape(spec([W1, W2], ["mnst", "nopq"], "mosptq"), (m1, m3, s1 * s2, s1 * s2))
    L, Rr = sym("L", a, a, m1), sym("R", b, b, m3)
    got = call("HAproductSingleSite", mf.HAproductSingleSite, L, W, Rr, A.reshape(A_, (a * b * s1 * s2,)))
    want = spec([L, A.reshape(A_, (a, b, s1, s2)), W1, W2, Rr], ["acm", "absu", "mnst", "nouv", "bdo"], "cdtv")
    ensure_eq("HAproductSingleSite.two-site", A.reshape(got, (a, b, s1, s2)), want)


@R.group("HAproductZeroSite", ["mpsfunctions.HAproductZeroSite", "mpsfunctions.HAproductZeroSiteMat"])
def _():
    mf = MF()
    mix("A", "W", "L", "mb", Rb="L", La="L", ma=("mb",))
    a, b, m1, m2, s = [dim(x) for x in ("a", "b", "m1", "m2", "s")]
    A_ = sym("A", a, b, s)
    W = sym("W", m1, m2, s, s)
    L = sym("L", a, a, m1)
    Rb = sym("Rb", b, b, m2)
    mb = sym("mb", b, b)
    wr = spec([L, A_, W, bra(A_), mb, Rb], ["acm", "abs", "mnst", "cdt", "be", "efn"], "df")
    ensure_eq("HAproductZeroSiteMat.right", call("HAproductZeroSiteMat", mf.HAproductZeroSiteMat, L, W, A_, Rb, "right", mb), wr)
    got = call("HAproductZeroSite", mf.HAproductZeroSite, L, W, A_, Rb, "right", A.reshape(mb, (b * b,)))
    ensure_eq("HAproductZeroSite.right", A.reshape(got, (b, b)), wr)
    La = sym("La", a, a, m1)
    ma = sym("ma", a, a)
    wl = spec([La, ma, A_, W, bra(A_), Rb], ["xym", "xa", "abs", "mnst", "cdt", "bdn"], "yc")
    ensure_eq("HAproductZeroSiteMat.left", call("HAproductZeroSiteMat", mf.HAproductZeroSiteMat, La, W, A_, Rb, "left", ma), wl)
    got = call("HAproductZeroSite", mf.HAproductZeroSite, La, W, A_, Rb, "left", A.reshape(ma, (a * a,)))
    ensure_eq("HAproductZeroSite.left", A.reshape(got, (a, a)), wl)


@R.group("HAproductBond", ["mpsfunctions.HAproductBond", "mpsfunctions.HAproductBondMatrix", "mpsfunctions.applyHbond"])
def _():
    mf = MF()
    mix("L", "R", "x")
    a, m = dim("a"), dim("m")
    L, Rr, x = sym("L", a, a, m), sym("R", a, a, m), sym("x", a, a)
    want = spec([L, x, Rr], ["acm", "ab", "bdm"], "cd")
    ensure_eq("HAproductBondMatrix", call("HAproductBondMatrix", mf.HAproductBondMatrix, L, Rr, x), want)
    got = call("HAproductBond", mf.HAproductBond, L, Rr, A.reshape(x, (a * a,)))
    ensure_shape("HAproductBond.shape", got, (a * a,))
    ensure_eq("HAproductBond", A.reshape(got, (a, a)), want)
    ensure_eq("applyHbond", call("applyHbond", mf.applyHbond, L, Rr, x), want)


@R.group("contractionE", ["mpsfunctions.contractionE"])
def _():
    mf = MF()
    mix("L", "R", "x")
    a, ap, b, bp, m, s = [dim(x) for x in ("a", "a'", "b", "b'", "m", "s")]
    L, Rr, x = sym("L", a, ap, m), sym("R", b, bp, m), sym("x", a, b, s)
    ensure_eq("contractionE", call("contractionE", mf.contractionE, L, x, Rr), spec([L, x, Rr], ["acm", "abs", "bdm"], "cds"))


# ---- loops over the chain: invariant = opaque environment built from the sites already absorbed --------------------
def stub_layers(mf):
    """callee contracts of addLayer/addELayer (proved by their own groups)"""
    class Saved: pass
    return {"addLayer": lambda E, A_, W, B_, d: spec_addlayer(E, A_, W, B_, d) if (d > 0 or d < 0) else None,
            "addELayer": lambda E, A_, B_, d: spec_addE(E, A_, B_, d)}


def fam(name, lo, n, bonds, phys, mpo=False):
    """opaque family of site tensors k -> name[k] of symbolic length n"""
    def fn(p):
        k = p
        if mpo: return sym("%s[%s]" % (name, k), dim("%s[%s]" % (bonds, k)), dim("%s[%s]" % (bonds, k + 1)), dim("%s[%s]" % (phys, k)), dim("%s[%s]" % (phys, k)))
        return sym("%s[%s]" % (name, k), dim("%s[%s]" % (bonds, k)), dim("%s[%s]" % (bonds, k + 1)), dim("%s[%s]" % (phys, k)))
    return VList.family(fn, n)


def Lenv(name, k, b1, b2, m):
    """spec function: the left environment of the bond left of site k.  By definition
       Lenv(k+1) = addLayer(Lenv(k), site k), used as a rewrite rule (unfolding of the recursive spec)"""
    return sym("%s[%s]" % (name, k), dim("%s[%s]" % (b1, k)), dim("%s[%s]" % (b2, k)), dim("%s[%s]" % (m, k)))


class EnvLoop:
    """invariant: the accumulated environment equals the recursively defined one at the current bond"""
    def __init__(s, var_pick, spec_at, unfold, steps):
        s.spec_at, s.unfold, s.var_pick, s.steps = spec_at, unfold, var_pick, steps
    def check(s, i, locs, phase):
        s.var_pick(i, locs, phase)
    def havoc(s, i, locs):
        return s.spec_at(i, locs)


def unfold_left(name, k, A_, W, B_, b1, b2, m, layer=True):
    """ghost: register  <contraction of Lenv(k) with site k>  ->  Lenv(k+1)   (definition of Lenv)"""
    nxt = Lenv(name, k + 1, b1, b2, m)
    cur = Lenv(name, k, b1, b2, m)
    lhs = spec_addlayer(cur, A_, W, B_, 1) if W is not None else spec_addE(cur, A_, B_, 1)
    T.add_rule("def %s" % name, lhs.v, nxt.v)


def unfold_right(name, k, A_, W, B_, b1, b2, m):
    """right environment of bond k+1 absorbed with site k gives the one of bond k"""
    nxt = Lenv(name, k, b1, b2, m)
    cur = Lenv(name, k + 1, b1, b2, m)
    lhs = spec_addlayer(cur, A_, W, B_, -1) if W is not None else spec_addE(cur, A_, B_, -1)
    T.add_rule("def %s" % name, lhs.v, nxt.v)


def run_contract(direction, layer):
    mf = MF()
    mix(*("ABW" if layer else "AB"), E="ABW" if layer else "AB")
    n1, n2, N = sint("site1"), sint("site2"), sint("N")
    assume(n1 >= 0); assume(n1 <= n2); assume(n2 < N)
    up, lo = fam("A", 0, N, "a", "s"), fam("B", 0, N, "b", "s" if not layer else "s")
    W = fam("W", 0, N, "m", "s", mpo=True) if layer else None
    mb = "m" if layer else "mm"

    def env(k):
        m = dim("m[%s]" % pint(k)) if layer else dim("mm")
        return sym("E[%s]" % pint(k), dim("a[%s]" % pint(k)), dim("b[%s]" % pint(k)), m)

    def unfold(k):
        a, b = up[k], lo[k]
        w = W[k] if layer else None
        if direction > 0:
            lhs = spec_addlayer(env(k), a, w, b, 1) if layer else spec_addE(env(k), a, b, 1)
            T.add_rule("def E", lhs.v, env(k + 1).v)
        else:
            lhs = spec_addlayer(env(k + 1), a, w, b, -1) if layer else spec_addE(env(k + 1), a, b, -1)
            T.add_rule("def E", lhs.v, env(k).v)

    accname = []

    class Inv:
        def find(s, locs, i):
            # the accumulator is the local array that currently equals the environment
            k = i if direction > 0 else i + 1
            want = env(k)
            hit = [v for v, x in locs.items() if isinstance(x, Arr) and x.ndim == 3 and x is not start and T.equal(x.v, want.v)[0]]
            return hit
        def check(s, i, locs, phase):
            hit = s.find(locs, i)
            if phase == "init": accname[:] = hit
            else: hit = [h for h in hit if h in accname]
            name = "contract.%s%s.%s" % ("MPO" if layer else "E", "+" if direction > 0 else "-", phase)
            if not hit and phase != "init": C().ob(name, False, "tensor", "accumulated environment differs from its definition")
            elif not hit: raise Unsupported("no accumulator found")
            else: C().ob(name, True, "tensor")
        def havoc(s, i, locs):
            k = i if direction > 0 else i + 1
            if not getattr(s, "at_exit", False): unfold(i)
            return {v: Arr(env(k).v) for v in accname}
    C().data["loop_handler"] = lambda rng, locs, lid: Inv()
    start = env(n1 if direction > 0 else n2 + 1)
    with patched(mf, **stub_layers(mf)):
        if layer: got = call("contractMPO", mf.contractMPO, up, lo, W, start, n1, n2, direction)
        else: got = call("contractE", mf.contractE, up, lo, start, n1, n2, direction)
    ensure_eq("contract%s.%s" % ("MPO" if layer else "E", "post"), got, env(n2 + 1 if direction > 0 else n1))
    ensure_frame("contract.frame", start)


@R.group("contractMPO", ["mpsfunctions.contractMPO"])
def _():
    d = C().choose(2)
    run_contract(1 if d else -1, True)


@R.group("contractE", ["mpsfunctions.contractE"])
def _():
    d = C().choose(2)
    run_contract(1 if d else -1, False)


def short_contract(layer):
    """sequences of one to three sites inside a longer chain"""
    mf = MF()
    mix(*("ABWE" if layer else "ABE"))
    d = 1 if C().choose(2) else -1
    n, off = 1 + C().choose(3), C().choose(2)
    mk = lambda p, b: VList([sym("%s%d" % (p, k), dim("%s%d" % (b, k)), dim("%s%d" % (b, k + 1)), dim("s%d" % k)) for k in range(n + off + 1)])
    up, lo = mk("A", "a"), mk("B", "b")
    W = VList([sym("W%d" % k, dim("m%d" % k), dim("m%d" % (k + 1)), dim("s%d" % k), dim("s%d" % k)) for k in range(n + off + 1)])
    k0 = off if d > 0 else off + n
    start = sym("E", dim("a%d" % k0), dim("b%d" % k0), dim("m%d" % k0) if layer else dim("m"))
    if layer: got = call("contractMPO", mf.contractMPO, up, lo, W, start, off, off + n - 1, d)
    else: got = call("contractE", mf.contractE, up, lo, start, off, off + n - 1, d)
    e = Arr(start.v)
    for k in (range(off, off + n) if d > 0 else range(off + n - 1, off - 1, -1)):
        e = spec_addlayer(e, up[k], W[k], lo[k], d) if layer else spec_addE(e, up[k], lo[k], d)
    ensure_eq("contract%s.%s" % ("MPO" if layer else "E", "post"), got, e)
    ensure_frame("contract.frame", start)


R.fallback("contractMPO", "sequences of 1 to 3 sites, symbolic dimensions and entries")(lambda: short_contract(True))
R.fallback("contractE", "sequences of 1 to 3 sites, symbolic dimensions and entries")(lambda: short_contract(False))


# ---- lists of boundary environments ------------------------------------------------------------------------------
class Blocks:
    """family of environments of an arbitrary chain: E(k) is the boundary grown up to bond k"""
    def __init__(s, left):
        s.left = left
        if C().choose(2): s.N = 1
        else:
            s.N = sint("N")
            assume(s.N >= 2)
        s.ts, s.W = fam("A", 0, s.N, "a", "s"), fam("W", 0, s.N, "m", "s", mpo=True)
        s.start = s.env(0 if left else s.N)
        s.done = set()

    def env(s, k):
        p = pint(k)
        return sym("E[%s]" % p, dim("a[%s]" % p), dim("a[%s]" % p), dim("m[%s]" % p))

    def after(s, j):
        """environment that includes site j; registers its definition"""
        j = SInt.mk(pint(j))
        src, dst = (j, j + 1) if s.left else (j + 1, j)
        if pint(j) not in s.done:
            s.done.add(pint(j))
            T.add_rule("def E", spec_addlayer(s.env(src), s.ts[j], s.W[j], s.ts[j], 1 if s.left else -1).v, s.env(dst).v)
        return s.env(dst)


class BlocksConc(Blocks):
    def __init__(s, left, N):
        s.left, s.N, s.done = left, N, set()
        s.ts = VList([sym("A%d" % k, dim("a%d" % k), dim("a%d" % (k + 1)), dim("s%d" % k)) for k in range(N)])
        s.W = VList([sym("W%d" % k, dim("m%d" % k), dim("m%d" % (k + 1)), dim("s%d" % k), dim("s%d" % k)) for k in range(N)])
        k = 0 if left else N
        s.start = sym("E", dim("a%d" % k), dim("a%d" % k), dim("m%d" % k))

    def after(s, j):
        E_ = s.start
        for k in (range(0, j + 1) if s.left else range(s.N - 1, j - 1, -1)): E_ = spec_addlayer(E_, s.ts[k], s.W[k], s.ts[k], 1 if s.left else -1)
        return E_


def run_blocks(left, conc=False):
    from .callee import ListInv, EnvInv, same_list
    mf = MF()
    mix("A", "W", *(("E",) if conc else ()), **({} if conc else {"E": "AW"}))
    b = BlocksConc(left, 1 + C().choose(3)) if conc else Blocks(left)
    N = b.N
    site = (lambda k: k) if left else (lambda k: N - 1 - k)      # list position -> last site absorbed
    whole = C().choose(2) == 0
    nm = ("getL" if left else "getR") if whole else ("getUCL" if left else "getUCR")
    if not conc:
        if whole:
            # list position = loop index when the loop runs over the sites, whatever it starts from
            C().data["loop_handler"] = lambda rng, locs, lid: ListInv(nm, lambda k: b.after(site(k)), whole=True).pick(rng, locs)
        else:
            def env(k):      # k: number of sites absorbed
                k = SInt.mk(pint(k))
                if k == 0: return b.start
                return b.after(site(k - 1))
            C().data["loop_handler"] = lambda rng, locs, lid: EnvInv(nm, env, lambda i: b.after(site(i)), 1)
    with patched(mf, **stub_layers(mf)): got = call(nm, getattr(mf, nm), b.ts, b.W, b.start)
    if whole:
        C().ob(nm + ".is-list", isinstance(got, VList), "engine")
        if conc:
            C().ob(nm + ".length", len(got) == N, "engine", "length %d" % len(got))
            for k in range(N): ensure_eq(nm + ".block", got[k], b.after(site(k)))
        elif not isinstance(N, SInt):
            ensure(nm + ".block.length", got.symlen() == 1)
            ensure_eq(nm + ".block", got[0], b.after(site(0)))
        else: same_list(nm + ".block", got, lambda k: b.after(site(k)), N)
    else: ensure_eq(nm + ".block", got, b.after(site(N - 1)))
    ensure_frame(nm + ".frame", b.start)


for _l in (True, False):
    R.group("blocks.%s" % ("left" if _l else "right"), ["mpsfunctions.getL", "mpsfunctions.getUCL"] if _l else ["mpsfunctions.getR", "mpsfunctions.getUCR"])(lambda l=_l: run_blocks(l))
    R.fallback("blocks.%s" % ("left" if _l else "right"), "N<=3, symbolic dimensions and entries")(lambda l=_l: run_blocks(l, True))


@R.group("blocks.projected", ["mpsfunctions.getLprojected", "mpsfunctions.getRprojected"], bounded_only=True, bound="chains of 1 to 3 sites, symbolic dimensions and entries")
def _():
    mf, c = MF(), C()
    N, left = 1 + c.choose(3), c.choose(2) == 1
    a = [dim("a%d" % k) for k in range(N + 1)]
    w = [dim("w%d" % k) for k in range(N + 1)]
    for k in range(N + 1): assume(w[k] >= 2)
    d = [dim("d%d" % k) for k in range(N)]
    As = [sym("A%d" % k, a[k], a[k + 1], d[k]) for k in range(N)]
    Ws = [sym("W%d" % k, w[k], w[k + 1], d[k], d[k]) for k in range(N)]
    ld = [sym("l%d" % k, a[k], a[k]) for k in range(N + 1)]
    rd = [sym("r%d" % k, a[k], a[k]) for k in range(N + 1)]
    b = sym("lb", a[0], a[0], w[0]) if left else sym("rb", a[N], a[N], w[N])
    with patched(mf, **stub_layers(mf)):
        got = call("projected", mf.getLprojected if left else mf.getRprojected, VList(list(As)), VList(list(Ws)), b, VList(list(ld)), VList(list(rd)))
    ensure("projected.length", got.symlen() == N)
    x = b
    for k in range(N):
        n = k if left else N - 1 - k
        x = spec_addlayer(x, As[n], Ws[n], As[n], 1 if left else -1)
        q = n + 1 if left else n                      # the bond the block ends on
        end = 0 if left else -1
        s = x[:, :, end]
        p, o = (ld[q], rd[q]) if left else (rd[q], ld[q])
        tr = T.einsum([s.v, o.v], [list("ab"), list("ba")], [])
        x = x.copy()
        x[:, :, end] = Arr(T.add(s.v, T.scale(T.einsum([tr, p.v], [[], list("ab")], list("ab")), Poly.const(-1))))
        ensure_eq("projected.block", got[k], x)
        x = got[k]
