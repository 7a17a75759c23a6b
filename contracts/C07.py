"""C07: state arithmetic is vector arithmetic."""
from .base import *
from .callee import *
R = Registry()


def block(top, bot):
    """spec: block diagonal of two site tensors"""
    a1, b1, d = top.shape
    a2, b2, _ = bot.shape
    out = A.np_zeros((a1 + a2, b1 + b2, d), complex)
    out[0:a1, 0:b1, :] = top
    out[a1:a1 + a2, b1:b1 + b2, :] = bot
    return out


def row(left, right):
    a, b1, d = left.shape
    b2 = right.shape[1]
    out = A.np_zeros((a, b1 + b2, d), complex)
    out[:, 0:b1, :] = left
    out[:, b1:b1 + b2, :] = right
    return out


def col(top, bot):
    a1, b, d = top.shape
    a2 = bot.shape[0]
    out = A.np_zeros((a1 + a2, b, d), complex)
    out[0:a1, :, :] = top
    out[a1:a1 + a2, :, :] = bot
    return out


def two_chains(N, cx=(True, True)):
    t1, b1 = obc_family("A", N, "a", cx=cx[0])
    t2, b2 = obc_family("B", N, "b", cx=cx[1])
    return t1, t2, b1, b2


def kinds():
    """which of the two states and which factor is complex"""
    k = C().choose(5, "element types")
    return [(True, True, True), (True, False, False), (False, True, False), (False, False, True), (False, False, False)][k]


def factors(cx): return (cscalar("Z1"), rscalar("Z2")) if cx[2] and not cx[0] else (cscalar("Z1"), cscalar("Z2")) if cx[2] else (rscalar("Z1"), rscalar("Z2"))


@R.group("directsum", ["mpsfunctions.directsum"])
def _():
    mf = MF()
    a, b, c, d = [dim(x) for x in "abcd"]
    X, Y = sym("X", a, b), sym("Y", c, d)
    got = call("directsum", mf.directsum, X, Y)
    want = A.np_zeros((a + c, b + d), complex)
    want[0:a, 0:b] = X
    want[a:a + c, b:b + d] = Y
    ensure_eq("directsum", got, want)
    ensure_frame("directsum.frame", X, Y)


def is_site_loop(rng, N):
    h = rng.hi
    return isinstance(h, SInt) and pint(N).atoms() <= h.poly.atoms()


def site_inv(inv, rng, locs, N, cx=True):
    if not is_site_loop(rng, N): return None
    return inv.pick(rng, locs) or (DtypeInv(rng, N, cx) if DtypeInv.fits(locs) else None)


@R.group("addMPS.open", ["mpsfunctions.addMPS", "mpsfunctions.directsum"])
def _():
    mf = MF()
    N = sint("N")
    assume(N >= 2)
    cx = kinds()
    t1, t2, b1, b2 = two_chains(N, cx)
    Z1, Z2 = factors(cx)
    inv = ListInv("addMPS.open", lambda k: block(t1[k], t2[k]))
    C().data["loop_handler"] = lambda rng, locs, lid: site_inv(inv, rng, locs, N, any(cx[:2]))
    if C().choose(2): got = call("addMPS", mf.addMPS, t1, Z1, t2, Z2)
    else: got = call("addMPS", mf.addMPS, t1, Z1, t2, Z2, True)
    ensure("addMPS.open.length", got.symlen() == N)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    x = got[j]
    if j == 0: ensure_eq("addMPS.open.first", x, row(t1[0] * Z1, t2[0] * Z2))
    elif j == N - 1: ensure_eq("addMPS.open.last", x, col(t1[N - 1], t2[N - 1]))
    else: ensure_eq("addMPS.open.middle", x, block(t1[j], t2[j]))


@R.group("addMPS.open.one-site", ["mpsfunctions.addMPS"])
def _():
    mf = MF()
    d = dim("d")
    a, b = sym("A", 1, 1, d), sym("B", 1, 1, d)
    Z1, Z2 = cscalar("Z1"), cscalar("Z2")
    got = call("addMPS", mf.addMPS, VList([a]), Z1, VList([b]), Z2)
    ensure("addMPS.one-site.length", vl(got) == 1)
    ensure_eq("addMPS.one-site", got[0], a * Z1 + b * Z2)
    ensure_frame("addMPS.one-site.frame", a, b)





@R.group("addMPS.periodic", ["mpsfunctions.addMPS"])
def _():
    mf = MF()
    N = sint("N")
    assume(N >= 1)
    cx = kinds()
    t1, t2 = site_family("A", N, "a", cx=cx[0]), site_family("B", N, "b", cx=cx[1])
    Z1, Z2 = factors(cx)

    def sp(k):
        if k == 0: return block(t1[k] * Z1, t2[k] * Z2)
        return block(t1[k], t2[k])
    inv = ListInv("addMPS.periodic", sp)
    C().data["loop_handler"] = lambda rng, locs, lid: site_inv(inv, rng, locs, N, any(cx[:2]))
    got = call("addMPS", mf.addMPS, t1, Z1, t2, Z2, False)
    ensure("addMPS.periodic.length", vl(got) == N)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure_eq("addMPS.periodic.site", got[j], sp(j))


@R.group("addition.lemma", ["(lemma) block structure multiplies out to the sum"])
def _():
    """the product of the blocks is the sum of the two products: base, induction step and end"""
    P, a, b, a2, b2, d = [dim(x) for x in ("P", "a", "b", "a2", "b2", "d")]
    L1, L2 = sym("L1", P, a), sym("L2", P, b)
    X, Y = sym("X", a, a2, d), sym("Y", b, b2, d)

    def rowm(u, v):
        out = A.np_zeros((u.shape[0], u.shape[1] + v.shape[1]), complex)
        out[:, 0:u.shape[1]] = u
        out[:, u.shape[1]:u.shape[1] + v.shape[1]] = v
        return out
    w = C().choose(2)
    if w == 0:
        got = spec([rowm(L1, L2), block(X, Y)], ["Pa", "abs"], "Psb")
        want = A.np_zeros((P, d, a2 + b2), complex)
        want[:, :, 0:a2] = spec([L1, X], ["Pa", "abs"], "Psb")
        want[:, :, a2:a2 + b2] = spec([L2, Y], ["Pa", "abs"], "Psb")
        ensure_eq("addition.lemma.step", got, want)
    else:
        X1, Y1 = sym("X1", a, 1, d), sym("Y1", b, 1, d)
        got = spec([rowm(L1, L2), col(X1, Y1)], ["Pa", "abs"], "Pbs")
        ensure_eq("addition.lemma.end", got, spec([L1, X1], ["Pa", "abs"], "Pbs") + spec([L2, Y1], ["Pa", "abs"], "Pbs"))


@R.group("addMPS.refusals", ["mpsfunctions.addMPS"])
def _():
    mf = MF()
    w = C().choose(4)
    obc = C().choose(2) == 1
    t1, t2 = chain("A", 3, d="d"), chain("B", 3, d="d")
    e = dim("e")
    k = w - 1
    if w == 0: t2 = chain("B", 2, d="d")
    else:
        t2[k] = sym("W", t2[k].shape[0], t2[k].shape[1], e)
        assume(core.SBool(zint(e) != zint(t1[k].shape[2])))
    ensure_raises("addMPS.refusal", lambda: mf.addMPS(t1, 1.0, t2, 1.0, obc), (ValueError, AssertionError, VCFail))


def mixed_chain(name, N, which, obc=True, d=None):
    """N tensors, all complex (None), or only the one numbered so"""
    b = [1 if obc and k in (0, N) else dim("%sD%d" % (name, k)) for k in range(N + 1)]
    if not obc: b[N] = b[0]
    return VList([sym("%s%d" % (name, k), b[k], b[k + 1], d or dim("d%d" % k), cx=which is None or k == which) for k in range(N)])


def mixed_chains(N, obc, d=None):
    k = C().choose(2 * N + 2, "element types")      # all complex, or at most one complex tensor
    t1, t2 = [mixed_chain(n, N, k - 2 - h if k >= 2 else -1 if k else None, obc, d) for n, h in (("A", 0), ("B", N))]
    return (t1, t2) + ((rscalar("Z1"), rscalar("Z2")) if k else (cscalar("Z1"), cscalar("Z2")))


@R.fallback("addMPS.open", "N<=4, symbolic bond dimensions and entries, symbolic or two-dimensional sites, mixed element types")
def _():
    mf = MF()
    N = 1 + C().choose(4)
    d = (None, 2)[C().choose(2)]
    t1, t2, Z1, Z2 = mixed_chains(N, True, d)
    got = call("addMPS", mf.addMPS, t1, Z1, t2, Z2)
    if d is None: ensure_eq("addMPS.bounded", dense(list(got)), dense(t1) * Z1 + dense(t2) * Z2)
    else:
        for k in range(N):
            want = t1[0] * Z1 + t2[0] * Z2 if N == 1 else row(t1[0] * Z1, t2[0] * Z2) if k == 0 else col(t1[k], t2[k]) if k == N - 1 else block(t1[k], t2[k])
            ensure_shape("addMPS.bounded", got[k], want.shape)
            for q in range(d): ensure_eq("addMPS.bounded", got[k][:, :, q], want[:, :, q])
    ensure_frame("addMPS.frame", *list(t1), *list(t2))


@R.fallback("addMPS.periodic", "N<=3, symbolic bond dimensions and entries, symbolic or two-dimensional sites, mixed element types")
def _():
    mf = MF()
    N = 1 + C().choose(3)
    d = (None, 2)[C().choose(2)]
    t1, t2, Z1, Z2 = mixed_chains(N, False, d)
    got = call("addMPS", mf.addMPS, t1, Z1, t2, Z2, False)
    for k in range(N):
        want = block(t1[k] * Z1, t2[k] * Z2) if k == 0 else block(t1[k], t2[k])
        ensure_shape("addMPS.bounded", got[k], want.shape)
        for q in (range(d) if d else [slice(None)]): ensure_eq("addMPS.bounded", got[k][:, :, q], want[:, :, q])
    ensure_frame("addMPS.frame", *list(t1), *list(t2))


# ---- the state object -----------------------------------------------------------------------------------------------
def absorbed(fam, mat, p, N):
    """the list export: the centre matrix contracted into its right neighbour (the left one at the end of the chain)"""
    def sp(k):
        if p == N:
            if k == N - 1: return spec([fam[k], mat], ["abs", "bc"], "acs")
        elif k == p: return spec([mat, fam[k]], ["ab", "bcs"], "acs")
        return fam[k]
    return sp


@R.group("tolist", ["MPS.tolist"])
def _():
    m, fam, p, b = state("A")
    N, mat, Z = m._N, m._mat, m._Z
    got = call("tolist", m.tolist)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure("tolist.length", got.symlen() == N)
    x = got[j]
    # the export may put the centre matrix into either neighbour
    left = spec([fam[p - 1], mat], ["abs", "bc"], "acs") if p > 0 else None
    right = spec([mat, fam[p]], ["ab", "bcs"], "acs") if p < N else None
    where = None
    if right is not None and T.equal(got[p].v, right.v)[0]: where = "right"
    elif left is not None and T.equal(got[p - 1].v, left.v)[0]: where = "left"
    C().ob("tolist.centre", where is not None, "tensor", "the centre matrix is not contracted into a neighbouring tensor")
    if where is None: return
    if where == "right": ensure_eq("tolist.site", x, right if j == p else fam[j])
    else: ensure_eq("tolist.site", x, left if j == p - 1 else fam[j])
    C().ob("tolist.fresh", x is not fam[j], "engine", "the exported tensor is the state's own array")
    untouched("tolist.frame", m, fam, mat, Z, p)


@R.fallback("tolist", "N<=4, symbolic dimensions and entries")
def _():
    N = 1 + C().choose(4)
    p = C().choose(N + 1)
    m, ts = concrete_mps(N, p, "A", rect=C().choose(2) == 1)
    v = amplitudes(m)
    got = call("tolist", m.tolist)
    ensure_eq("tolist.bounded", dense(list(got)) * m._Z, v)
    ensure_eq("tolist.bounded.unchanged", amplitudes(m), v)


def scaled(name, r, factor, fam, mat, Z, p, N):
    same_list(name + ".tensors", r._tensors, lambda j: fam[j], N)
    ensure_eq(name + ".mat", r._mat, mat)
    ensure(name + ".position", r._position == p)
    ensure_eq(name + ".Z", A.toarr(r._Z), A.toarr(Z) * factor)
    j = sint("jj")
    C().ob(name + ".isolated", r._tensors[j] is not fam[j] and r._mat is not mat, "engine", "the result shares arrays with its operand")


def copy_contract(cls):
    """contract of MPS.__copy__ (C16)"""
    def cp(s):
        r = cls.__new__(cls)
        r.__dict__.update(s.__dict__)
        r._tensors = s._tensors._dup(lambda x: x.copy()) if s._tensors.sym else VList([x.copy() for x in s._tensors])
        r._mat = s._mat.copy()
        r._connector = s._connector.copy()
        return r
    return cp


@R.group("scaling", ["MPS.__mul__", "MPS.__rmul__", "MPS.__truediv__", "MPS.__neg__", "MPS.__imul__", "MPS.__idiv__"])
def _():
    M = MPSM()
    m, fam, p, b = state("A")
    N, mat, Z = m._N, m._mat, m._Z
    w = C().choose(6)
    x = [cscalar("x"), rscalar("x")][C().choose(2)] if w != 3 else None
    inv = None
    if x is not None:
        inv = Arr(T.scalar(A.aspoly(x).inv()))
    old = M.MPS.__copy__
    M.MPS.__copy__ = copy_contract(M.MPS)
    try:
        name = ["mul", "rmul", "truediv", "neg", "imul", "idiv"][w]
        if w == 0: r, f = call(name, lambda: m * x), x
        elif w == 1: r, f = call(name, lambda: m.__rmul__(x)), x
        elif w == 2: r, f = call(name, lambda: m / x), inv
        elif w == 3: r, f = call(name, lambda: -m), A.toarr(-1)
        elif w == 4:
            r, f = call(name, m.__imul__, x), x
        else: r, f = call(name, m.__idiv__, x), inv
    finally: M.MPS.__copy__ = old
    if w < 4:
        untouched(name + ".operand", m, fam, mat, Z, p)
        scaled(name, r, f, fam, mat, Z, p, N)
    else:
        C().ob(name + ".in-place", r is m, "engine")
        same_list(name + ".tensors", r._tensors, lambda j: fam[j], N)
        ensure_eq(name + ".mat", r._mat, mat)
        ensure(name + ".position", r._position == p)
        ensure_eq(name + ".Z", A.toarr(r._Z), A.toarr(Z) * f)


@R.group("scaling.refusals", ["MPS.__mul__", "MPS.__rmul__", "MPS.__truediv__", "MPS.__imul__", "MPS.__idiv__"])
def _():
    m, fam, p, b = state("A")
    w = C().choose(5)
    f = [m.__mul__, m.__rmul__, m.__truediv__, m.__imul__, m.__idiv__][w]
    ensure_raises("scaling.refusal", lambda: f(sym("v", dim("n"))), (TypeError,))


class Lists:
    """contracts of tolist and addMPS for the composed sum: lists are opaque, their amplitudes are formal combinations"""
    def __init__(s, N): s.N, s.n, s.val = N, 0, {}

    def new(s, value):
        s.n += 1
        fam, b = obc_family("L%d" % s.n, s.N, "L%dD" % s.n)
        s.val[id(fam)] = (value, fam)
        return fam

    def of(s, lst):
        for v, f in s.val.values():
            if f is lst: return v
        raise Unsupported("addMPS called with a list of unknown origin")

    def tolist(s, m):
        return s.new({m._gauge[0]: Arr(T.scalar(Poly.const(1)))})

    def addMPS(s, l1, Z1, l2, Z2, obc=True):
        if not (obc is True or obc == True): raise Unsupported("periodic sum")
        out = {}
        for l, Z in ((l1, Z1), (l2, Z2)):
            for k, c in s.of(l).items(): out[k] = out[k] + c * Z if k in out else c * Z
        return s.new(out)


@R.group("add", ["MPS.__add__", "MPS.__iadd__", "MPS.__sub__", "MPS.__init__"])
def _():
    """composition: the amplitudes of the result are the sum (difference) of those of the operands, for any length"""
    M, mf = MPSM(), MF()
    c = C()
    m1, f1, p1, b1 = state("A")
    N = m1._N
    w = c.choose(5)
    name = ["add", "sub", "iadd", "iadd-self", "sub-self"][w]
    same = w >= 3
    m1._gauge = ("A",)
    if same: m2 = m1
    else:
        m2, f2, p2, b2 = state("B", N)
        m2._gauge = ("B",)
    Z = {m._gauge[0]: m._Z for m in (m1, m2)}
    before = [(m, m._tensors, m._mat, m._Z, m._position) for m in (m1, m2)]
    L = Lists(N)

    def handler(rng, locs, lid):
        return DtypeInv(rng, N) if DtypeInv.fits(locs, rng) else None
    c.data["loop_handler"] = handler
    old = {k: M.MPS.__dict__[k] for k in ("__copy__", "tolist")}
    M.MPS.__copy__ = copy_contract(M.MPS)
    M.MPS.tolist = lambda s: L.tolist(s)
    try:
        with patched(mf, addMPS=L.addMPS):
            if w == 0: r = call(name, lambda: m1 + m2)
            elif w in (1, 4): r = call(name, lambda: m1 - m2)
            else: r = call(name, m1.__iadd__, m2)
    finally:
        for k, v in old.items(): setattr(M.MPS, k, v)
    if r is None: raise VCFail(name + "/returns", "returned None")
    tens = r._tensors
    val = None
    for v, f in L.val.values():
        if f is tens: val = v
    if val is None:
        # copied element by element
        j = sint("j")
        assume(j >= 0); assume(j < N)
        for v, f in L.val.values():
            if core.deq(pint(vl(tens)), pint(N)) and T.equal(tens[j].v, f[j].v)[0]: val = v
    if val is None: raise Unsupported("the tensors of the result were not produced by addMPS")
    # Z * |mat| with mat a multiple of the identity on the trivial last bond
    ensure_eq(name + ".mat", r._mat, A.np_eye(1))
    ensure(name + ".centre", r._position == N)
    sgn = -1 if w in (1, 4) else 1
    want = {"A": A.toarr(Z["A"]), "B": A.toarr(Z["B"]) * sgn} if not same else {"A": A.toarr(Z["A"]) * (1 + sgn)}
    for k in want: ensure_eq(name + ".amplitudes." + k, A.toarr(val.get(k, A.toarr(0))) * r._Z, want[k])
    C().ob(name + ".no-other-state", set(val) <= set(want), "engine")
    for m, t, mat, z, p in before:
        if m is r: continue
        C().ob(name + ".operand", m._tensors is t and m._mat is mat and m._Z is z and not t.sym["over"], "engine", "an operand was changed")
        ensure(name + ".operand-position", m._position == p)


@R.fallback("add", "N<=3, symbolic dimensions and entries, all centre positions")
def _():
    M = MPSM()
    c = C()
    N = 1 + c.choose(3)
    p1, p2 = c.choose(N + 1), c.choose(N + 1)
    m1, t1 = concrete_mps(N, p1, "A")
    w = c.choose(5)
    same = w >= 3
    if same: m2, t2 = m1, t1
    else: m2, t2 = concrete_mps(N, p2, "B")
    a1, a2 = amplitudes(m1), amplitudes(m2)
    name = ["add", "sub", "iadd", "iadd-self", "sub-self"][w]
    if w == 0: r, want = call(name, lambda: m1 + m2), a1 + a2
    elif w in (1, 4): r, want = call(name, lambda: m1 - m2), a1 - a2
    else: r, want = call(name, m1.__iadd__, m2), a1 + a2
    ensure_eq(name + ".amplitudes", amplitudes(r), want)
    if not same: ensure_eq(name + ".second-operand", amplitudes(m2), a2)
    if w in (0, 1, 4): ensure_eq(name + ".first-operand", amplitudes(m1), a1)
    ensure(name + ".centre", r._position == N)
