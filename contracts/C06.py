"""C06: expectation values are those of the represented state."""
from .base import *
from .callee import *
R = Registry()


def ops_family(N, name="O", phys="d"):
    return VList.family(lambda p: sym("%s[%s]" % (name, p), bonddim(phys, SInt.mk(p)), bonddim(phys, SInt.mk(p))), N)


def length():
    """chain length: one, or symbolic and at least two (the names of the dimensions unify only for literal arguments)"""
    if C().choose(2): return 1
    N = sint("N")
    assume(N >= 2)
    return N


def at(j, *special):
    """case split: j is one of the special sites (then written the same way), or an ordinary one"""
    for k in special:
        if j == k: return k
    return j


def env_sym(name, b1, b2=None):
    return lambda k: sym("%s[%s]" % (name, pint(k)), b1(k), (b2 or b1)(k), 1)


def opmpo(o):
    return A.expand_dims(A.expand_dims(o, 0), 0)


def pure(fam):
    return not fam.sym["over"] and all(t.version == 0 and not t._poison for t in fam.sym["cache"].values())


@R.group("measureLocal.lists", ["mpsfunctions.measureLocal"])
def _():
    """right: loc[n] = tr(L(n) with site n and operator n) / tr(L(n+1)), L the recursive left environment; left: mirrored"""
    mf = MF()
    mix("A", "O", "rb", lb=("rb",), E="A")
    c = C()
    N = length()
    ts, ops = site_family("A", N, "D"), ops_family(N)
    b = lambda k: bonddim("D", SInt.mk(pint(k)))
    env = env_sym("E", b)
    right = c.choose(2) == 1
    if right:
        def unfold(k): T.add_rule("def L", spec_addE(env(k), ts[k], ts[k], 1).v, env(k + 1).v)
        num = lambda k: spec([env(k), ts[k], ops[k], A.conj(ts[k])], ["acm", "abs", "st", "cbt"], "")
        val = lambda k: num(k) / A.trace(env(k + 1)[:, :, 0])
        lb, rb = env(0), sym("rb", b(N), b(N), 1)
        inv = VecInv("measureLocal.right", env, unfold, 1, val, N)
    else:
        def unfold(k): T.add_rule("def R", spec_addE(env(k + 1), ts[k], ts[k], -1).v, env(k).v)
        num = lambda k: spec([env(k + 1), ts[k], ops[k], A.conj(ts[k])], ["bdm", "abs", "st", "adt"], "")
        val = lambda k: num(k) / A.trace(env(k)[:, :, 0])
        lb, rb = sym("lb", b(0), b(0), 1), env(N)
        inv = VecInv("measureLocal.left", env, unfold, -1, val, N)
    c.data["loop_handler"] = lambda rng, locs, lid: inv
    last = N - 1 if right else 0
    unfold(last)
    with patched(mf, **layers()):
        got = call("measureLocal", mf.measureLocal, ts, ops, lb, rb, "right" if right else "left")
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure("measureLocal.length", vl2(got) == N)
    k = at(j, last)
    ensure_eq("measureLocal.element", got[k], val(k))
    ensure_frame("measureLocal.frame", lb, rb)
    C().ob("measureLocal.operators", pure(ts) and pure(ops), "engine")


def vl2(x): return x.symlen() if hasattr(x, "symlen") else x.shape[0]


@R.fallback("measureLocal.lists", "N<=3, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "O", "rb", lb=("rb",))
    c = C()
    N = 1 + c.choose(3)
    ts = chain("A", N, d="d")
    ops = VList([sym("O%d" % k, t.shape[2], t.shape[2]) for k, t in enumerate(ts)])
    right = c.choose(2) == 1
    one = A.np_ones((1, 1, 1))
    keep = list(ts) + list(ops)
    got = call("measureLocal", mf.measureLocal, ts, ops, one, one, "right" if right else "left")
    for k in range(N):
        part = list(ts)[:k + 1] if right else list(ts)[k:]
        o = ops[k]
        l = ["b%d" % q for q in range(len(part) + 1)]
        m = ["c%d" % q for q in range(len(part) + 1)]
        ss = ["s%d" % q for q in range(len(part))]
        at_ = len(part) - 1 if right else 0
        free, last = (0, len(part)) if right else (len(part), 0)
        l[last] = m[last] = "x"
        labs = [[l[q], l[q + 1], ss[q]] for q in range(len(part))] + [[m[q], m[q + 1], ss[q] if q != at_ else "t"] for q in range(len(part))]
        num = Arr(T.einsum([t.v for t in part] + [A.conj(t).v for t in part] + [o.v], labs + [[ss[at_], "t"]], []))
        labs[len(part) + at_][2] = ss[at_]
        den = Arr(T.einsum([t.v for t in part] + [A.conj(t).v for t in part], labs, []))
        ensure_eq("measureLocal.bounded", A.toarr(got[k]), num / den)
    ensure_frame("measureLocal.bounded.frame", *keep)


@R.group("matrixElementLocal.lists", ["mpsfunctions.matrixElementLocal"])
def _():
    """loc[n] = contraction of left environment (sites < n), site n with operator n, right environment (sites > n)"""
    mf = MF()
    mix("A", "B", "O", L="AB", R="AB")
    c = C()
    N = length()
    t1, t2 = site_family("A", N, "a"), site_family("B", N, "b")
    ops = ops_family(N)
    b1, b2 = (lambda k: bonddim("a", SInt.mk(pint(k)))), (lambda k: bonddim("b", SInt.mk(pint(k))))
    L, Rr = env_sym("L", b1, b2), env_sym("R", b1, b2)

    def unL(k): T.add_rule("def L", spec_addE(L(k), t1[k], t2[k], 1).v, L(k + 1).v)
    def unR(k): T.add_rule("def R", spec_addE(Rr(k + 1), t1[k], t2[k], -1).v, Rr(k).v)
    val = lambda k: spec([L(k), t1[k], ops[k], A.conj(t2[k]), Rr(k + 1)], ["acm", "abs", "st", "cdt", "bdm"], "")

    def handler(rng, locs, lid):
        if rng.step == 1: return VecInv("matrixElementLocal", L, unL, 1, val, N)
        # the list of right environments, or a running one
        class RL(ListInv):
            def havoc(s, i, locs):
                if not getattr(s, "at_exit", False): unR(i)
                return ListInv.havoc(s, i, locs)
        inv = RL("matrixElementLocal.right", lambda k: Rr(k), whole=True)
        return inv.begin(rng)
    c.data["loop_handler"] = handler
    last = N - 1 if isinstance(N, SInt) else 0
    lb, rb = L(0), Rr(N)
    unL(last); unR(last)
    with patched(mf, **layers()):
        got = call("matrixElementLocal", mf.matrixElementLocal, t1, t2, ops, lb, rb)
    j = sint("j")
    assume(j >= 0); assume(j < N)
    ensure("matrixElementLocal.length", vl2(got) == N)
    k = at(j, last)
    ensure_eq("matrixElementLocal.element", got[k], val(k))
    ensure_frame("matrixElementLocal.frame", lb, rb)
    C().ob("matrixElementLocal.inputs", pure(t1) and pure(t2) and pure(ops), "engine")


@R.fallback("matrixElementLocal.lists", "N<=3, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "B", "O")
    c = C()
    N = 1 + c.choose(3)
    t1, t2 = chain("A", N, d="d"), chain("B", N, d="d")
    ops = VList([sym("O%d" % k, t.shape[2], t.shape[2]) for k, t in enumerate(t1)])
    one = A.np_ones((1, 1, 1))
    got = call("matrixElementLocal", mf.matrixElementLocal, t1, t2, ops, one, one)
    a1, a2 = dense(t1), dense(t2)
    l = "abcdef"[:N]
    for k in range(N):
        ensure_eq("matrixElementLocal.bounded", A.toarr(got[k]), spec([a1, ops[k], A.conj(a2)], [l, l[k] + "x", l.replace(l[k], "x")], ""))


@R.group("measure.lists", ["mpsfunctions.measure"])
def _():
    mf = MF()
    mix("A", "O", L="A", R="A")
    c = C()
    N = length()
    ts = site_family("A", N, "D")
    b = lambda k: bonddim("D", SInt.mk(pint(k)))
    L, Rr = env_sym("L", b), env_sym("R", b)
    s = sint("s")
    assume(s >= 0); assume(s < N)
    s = at(s, 0, N - 1)
    O = sym("O", 1, 1, bonddim("d", s), bonddim("d", s))
    def unL(k): T.add_rule("def L", spec_addE(L(k), ts[k], ts[k], 1).v, L(k + 1).v)
    def unR(k): T.add_rule("def R", spec_addE(Rr(k + 1), ts[k], ts[k], -1).v, Rr(k).v)
    unL(s)
    c.data["loop_handler"] = lambda rng, locs, lid: EnvInv("measure.left", L, unL, 1) if rng.step == 1 else EnvInv("measure.right", Rr, unR, -1)
    lb, rb = L(0), Rr(N)
    with patched(mf, **layers()): got = call("measure", mf.measure, O, lb, rb, ts, s)
    num = spec([L(s), ts[s], O, A.conj(ts[s]), Rr(s + 1)], ["acm", "abs", "mnst", "cdt", "bdn"], "")
    den = spec([L(s + 1), Rr(s + 1)], ["acm", "acm"], "")
    ensure_eq("measure.value", A.toarr(got), num / den)
    ensure_frame("measure.frame", lb, rb, O)
    C().ob("measure.inputs", pure(ts), "engine")


@R.fallback("measure.lists", "chains of 1 to 3 sites, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "O", "L", R="L")
    N = 1 + C().choose(3)
    s = C().choose(N)
    ts = VList([sym("A%d" % k, dim("D%d" % k), dim("D%d" % (k + 1)), dim("d%d" % k)) for k in range(N)])
    lb, rb = sym("L", dim("D0"), dim("D0"), 1), sym("R", dim("D%d" % N), dim("D%d" % N), 1)
    O = sym("O", 1, 1, dim("d%d" % s), dim("d%d" % s))
    got = call("measure", mf.measure, O, lb, rb, ts, s)
    L, Rr = Arr(lb.v), Arr(rb.v)
    for k in range(s): L = spec_addE(L, ts[k], ts[k], 1)
    for k in range(N - 1, s, -1): Rr = spec_addE(Rr, ts[k], ts[k], -1)
    num = spec([L, ts[s], O, A.conj(ts[s]), Rr], ["acm", "abs", "mnst", "cdt", "bdn"], "")
    ensure_eq("measure.value", A.toarr(got), num / spec([spec_addE(L, ts[s], ts[s], 1), Rr], ["acm", "acm"], ""))
    ensure_frame("measure.frame", lb, rb, O)


@R.group("measure.refusals", ["mpsfunctions.measureLocal", "mpsfunctions.matrixElementLocal"])
def _():
    mf = MF()
    w = C().choose(4)
    t1, t2 = chain("A", 3, d="d"), chain("B", 3, d="d")
    ops = VList([sym("O%d" % k, t.shape[2], t.shape[2]) for k, t in enumerate(t1)])
    one = A.np_ones((1, 1, 1))
    if w == 0: ensure_raises("measureLocal.refuse-length", lambda: mf.measureLocal(t1, VList(list(ops)[:2]), one, one, "right"), (ValueError, AssertionError))
    if w == 1: ensure_raises("measureLocal.refuse-ortho", lambda: mf.measureLocal(t1, ops, one, one, "up"), (ValueError, AssertionError))
    if w == 2: ensure_raises("matrixElementLocal.refuse-length", lambda: mf.matrixElementLocal(t1, t2, VList(list(ops)[:2]), one, one), (ValueError, AssertionError))
    if w == 3: ensure_raises("matrixElementLocal.refuse-states", lambda: mf.matrixElementLocal(t1, VList(list(t2)[:2]), ops, one, one), (ValueError, AssertionError))


# ---- the state object -----------------------------------------------------------------------------------------------
def canonical_state(name, N, pos):
    m, fam, p, b = state(name, N, pos=pos)
    m._gauge = (name, fam, m._mat, m._Z, b)
    attach_position(m, name, N, canonical=True)
    m._glist = m._tensors
    return m


def anypos(N, *special):
    """the centre of the state: one of the bonds the measurement uses, or any other"""
    w = C().choose(1 + len(special))
    if w: return special[w - 1]
    p = sint("p")
    assume(p >= 0); assume(p <= N)
    for k in special: assume(core.SBool(zint(p) != zint(k)))
    return p


def unchanged(name, m, p):
    """the represented state is the same: only moved by the contract of position, and moved back"""
    ensure(name + ".position-restored", m._position == p)
    ok = m._tensors is m._glist and m._mat is m._gauge[2] and m._Z is m._gauge[3] and pure(m._gauge[1]) and not m._tensors.sym["over"] and m._mat.version == 0
    C().ob(name + ".state-unchanged", ok, "engine", "fields of the state were changed other than by moving its centre")


@R.group("state.local", ["MPS.measureLocal", "MPS.__measureLocal__", "MPS.__tensor__"])
def _():
    mf = MF()
    mix("A", "O", Amat="A")
    N = sint("N")
    assume(N >= 1)
    s = sint("s")
    assume(s >= 0); assume(s < N)
    p = anypos(N, s + 1, s)
    m = canonical_state("A", N, p)
    first = m._gauge
    d = bonddim("d", s)
    O = sym("O", d, d)
    got = call("measureLocal", m.measureLocal, O, s)
    if got is NotImplemented: raise VCFail("state.local/returns", "NotImplemented")
    unchanged("state.local", m, p)
    ensure_frame("state.local.operator", O)
    used = [(p, first)] + m._moves
    hit = [g for q, g in used if q is s + 1 or bool(q == s + 1) or bool(q == s)]
    if not hit: raise Unsupported("the state was not measured with its centre at the site")
    ok = False
    for q, g in [(q, g) for q, g in used if bool(q == s + 1) or bool(q == s)]:
        nm, fam, mat, Z, b = g
        if bool(q == s + 1): core_, l = spec([fam[s], mat], ["abs", "bc"], "acs"), s
        else: core_, l = spec([mat, fam[s]], ["ab", "bcs"], "acs"), s
        SL, SR = segments(g, s, True), segments(g, s + 1, False)
        psi = spec([SL, core_, SR], ["Pa", "abs", "bQ"], "PsQ") * Z
        want = spec([psi, O, A.conj(psi)], ["PsQ", "st", "PtQ"], "")
        if T.equal(A.toarr(got).v, want.v)[0]: ok = True
    if ok: ensure("state.local.value", True)
    else: ensure_eq("state.local.value", got, want)


@R.fallback("state.local", "N<=3, symbolic dimensions and entries; right and left parts isometric")
def _():
    bounded_state("local")


def bounded_state(what):
    mf = MF()
    mix("A", "O", Amat="A")
    c = C()
    N = 1 + c.choose(3)
    p = c.choose(N + 1)
    m, ts = concrete_mps(N, p, "A")
    for k in range(N): iso3(ts[k], k < p, "A")
    T.add_rule("|mat|=1", T.einsum([m._mat.v, T.conj(m._mat.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
    v = amplitudes(m)
    l = "abcdef"[:N]
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate):
        if what == "local":
            s = c.choose(N)
            O = sym("O", ts[s].shape[2], ts[s].shape[2])
            got = call("measureLocal", m.measureLocal, O, s)
            vals = [(got, spec([v, O, A.conj(v)], [l, l[s] + "x", l.replace(l[s], "x")], ""))]
        elif what == "list":
            ops = VList([sym("O%d" % k, t.shape[2], t.shape[2]) for k, t in enumerate(ts)])
            got = call("measureList", m.measureList, ops)
            vals = [(got[k], spec([v, ops[k], A.conj(v)], [l, l[k] + "x", l.replace(l[k], "x")], "")) for k in range(N)]
    # expectation values are compared through the gauge the state ends in
    w = amplitudes(m)
    ensure_eq("state.%s.bounded.state" % what, w, v)
    ensure("state.%s.bounded.position" % what, m._position == p)


@R.group("state.list", ["MPS.measureList", "MPS.__measureList__"])
def _():
    mf = MF()
    mix("A", "O", Amat="A")
    N = sint("N")
    assume(N >= 1)
    p = anypos(N, 0)
    m = canonical_state("A", N, p)
    ops = ops_family(N)
    calls = []

    def measureLocal(mps, operators, lb, rb, ortho):
        """contract of mpsfunctions.measureLocal (group measureLocal.lists), tensors right isometric: tr L(n+1) = 1"""
        if mps is not m or operators is not ops: raise Unsupported("measureLocal called with other arguments")
        if ortho != "right": raise Unsupported("measureLocal called with %s" % ortho)
        ensure("state.list.centre-left", m._position == 0)
        ensure_eq("state.list.lb", lb, A.np_ones((1, 1, 1)))
        g = m._gauge
        calls.append(g)

        def loc(n):
            nm, fam, mat, Z, b = g
            S = sym("S[%s]" % pint(n), dim("P[%s]" % pint(n)), b(n))
            return spec([S, fam[n], ops[n], A.conj(S), A.conj(fam[n])], ["Pa", "abs", "st", "Pc", "cbt"], "")
        return VecFam(loc, N)
    with patched(mf, measureLocal=measureLocal): got = call("measureList", m.measureList, ops)
    if got is NotImplemented: raise VCFail("state.list/returns", "NotImplemented")
    unchanged("state.list", m, p)
    if len(calls) != 1: raise Unsupported("measureLocal called %d times" % len(calls))
    g = calls[0]
    j = sint("j")
    assume(j >= 0); assume(j < N)
    nm, fam, mat, Z, b = g
    if not m._moves: T.add_rule("|mat|=1", T.einsum([mat.v, T.conj(mat.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
    S, SR = sym("S[%s]" % pint(j), dim("P[%s]" % pint(j)), b(j)), segments(g, j + 1, False)
    psi = spec([S, fam[j], SR], ["Pa", "abs", "bQ"], "PsQ") * Z
    want = spec([mat, A.conj(mat), psi, ops[j], A.conj(psi)], ["xx", "yy", "PsQ", "st", "PtQ"], "")
    ensure_eq("state.list.value", got[j], want)
    C().ob("state.list.operators", pure(ops), "engine")


@R.group("state.matrix-elements", ["MPS.measureMatrixElementList", "MPS.__measureMatrixElementList__"])
def _():
    mf = MF()
    N = sint("N")
    assume(N >= 1)
    same = C().choose(2) == 1
    p1 = anypos(N, 0)
    m1 = canonical_state("A", N, p1)
    if same: m2, p2 = m1, p1
    else:
        w = C().choose(2)
        p2 = 0 if w else sint("p2")
        if not w: assume(p2 > 0); assume(p2 <= N)
        m2 = canonical_state("B", N, p2)
    ops = ops_family(N)
    calls = []

    def matrixElementLocal(a, b_, operators, lb, rb):
        """contract of mpsfunctions.matrixElementLocal (group matrixElementLocal.lists): el[n](tensors of a, tensors of b)"""
        if not (a is m1 and b_ is m2) or operators is not ops: raise Unsupported("matrixElementLocal called with other arguments")
        for m in (m1, m2): ensure("state.matrix-elements.centre-left", m._position == 0)
        ensure_eq("state.matrix-elements.lb", lb, A.np_ones((1, 1, 1)))
        ensure_eq("state.matrix-elements.rb", rb, A.np_ones((1, 1, 1)))
        calls.append((m1._gauge, m2._gauge))
        return VecFam(lambda n: cscalar("el[%s]" % pint(n)), N)
    with patched(mf, matrixElementLocal=matrixElementLocal): got = call("measureMatrixElementList", m1.measureMatrixElementList, m2, ops)
    if got is NotImplemented: raise VCFail("state.matrix-elements/returns", "NotImplemented")
    unchanged("state.matrix-elements.ket", m1, p1)
    unchanged("state.matrix-elements.bra", m2, p2)
    if len(calls) != 1: raise Unsupported("matrixElementLocal called %d times" % len(calls))
    g1, g2 = calls[0]
    j = sint("j")
    assume(j >= 0); assume(j < N)
    want = spec([g1[2], A.conj(g2[2])], ["xx", "yy"], "") * g1[3] * A.conj(g2[3]) * cscalar("el[%s]" % pint(j))
    ensure_eq("state.matrix-elements.value", got[j], want)


def strings(N): return VList.family(lambda p: sym("P[%s]" % p, bonddim("d", SInt.mk(p)), bonddim("d", SInt.mk(p))), N)


def correlations(k, fermi):
    """k operators (concrete number) at symbolic sites s1 <= s2 <= ..., any distances, chain of symbolic length"""
    mf = MF()
    if k < 3 and C().choose(2): C().data["kinds"] = {"A": False, "Amat": False}
    c = C()
    N = sint("N")
    assume(N >= 1)
    sites = []
    rel = []
    for i in range(k):
        if i == 0:
            lead = c.choose(2) if fermi else 0
            if lead: s = 0
            else:
                s = sint("s0")
                assume(s >= (1 if fermi else 0))
        else:
            w = c.choose(3)
            rel.append(w)
            if w == 0: s = sites[-1]
            elif w == 1: s = sites[-1] + 1
            else:
                s = sint("s%d" % i)
                assume(s >= sites[-1] + 2)
        sites.append(s)
    assume(sites[-1] < N) if isinstance(sites[-1], SInt) else assume(N > sites[-1])
    last = sites[-1]
    p = anypos(N, last + 1)
    m = canonical_state("A", N, p)
    first = m._gauge
    ops = [sym("O%d" % i, bonddim("d", s), bonddim("d", s)) for i, s in enumerate(sites)]
    P = strings(N) if fermi else None
    groups = []                       # (site, [operators in order], number of operators to the right)
    for s, o in zip(sites, ops):
        if groups and groups[-1][0] is s: groups[-1][1].append(o)
        else: groups.append((s, [o]))
    seen, tail = [], k
    loops = {}

    def gauge():
        for q, g in reversed([(p, first)] + m._moves):
            if q is last + 1 or bool(q == last + 1): return g
        raise Unsupported("the state was not measured with its centre right of the last operator")

    def plan():
        """the expected accumulated environments: start values, ranges, string or not"""
        if "g" in loops: return
        g = gauge()
        nm, fam, mat, Z, b = g
        fam_ = fam
        one = lambda x: A.reshape(x, (1, 1) + tuple(A.shape(x)))
        loops["g"], out = g, []
        left = k
        s0 = groups[0][0]
        # start
        if fermi and k % 2 == 1 and not (s0 == 0):
            env = lambda q: sym("E0[%s]" % pint(q), b(q), b(q), 1)
            e1 = env(0)
            T.add_rule("def E0[0]", A.reshape(A.np_eye(1), (1, 1, 1)).v, e1.v) if False else None
            out.append((0, s0, env, True))
            cur = env(s0)
        else:
            D = b(s0)
            cur = A.reshape(A.np_eye(D), (D, D, 1))
        for gi, (s, os_) in enumerate(groups):
            left -= len(os_)
            o = os_[0]
            for x in os_[1:]: o = spec([o, x], ["ab", "bc"], "ac")
            if fermi and left % 2 == 1: o = spec([o, P[s]], ["ab", "bc"], "ac")
            cur = spec([cur, fam[s], o, A.conj(fam[s])], ["acm", "abs", "st", "cdt"], "bdm")
            if gi + 1 < len(groups):
                nx = groups[gi + 1][0]
                if not (nx == s + 1):
                    env = lambda q, gi=gi: sym("E%d[%s]" % (gi + 1, pint(q)), b(q), b(q), 1)
                    out.append((s + 1, nx, env, fermi and left % 2 == 1, cur))
                    cur = env(nx)
        loops["list"], loops["final"] = out, cur

    def handler(rng, locs, lid):
        plan()
        g = loops["g"]
        nm, fam, mat, Z, b = g
        if not loops["list"]: raise Unsupported("more loops over the chain than gaps between the operators")
        e = loops["list"].pop(0)
        lo, hi, env, strg = e[:4]
        if not (core.deq(pint(rng.lo), pint(lo)) and core.deq(pint(rng.hi), pint(hi)) and rng.step == 1): raise Unsupported("loop over an unexpected range")
        start = e[4] if len(e) > 4 else A.reshape(A.np_eye(1), (1, 1, 1))

        def unfold(q):
            if strg: l = spec([env(q), fam[q], P[q], A.conj(fam[q])], ["acm", "abs", "st", "cdt"], "bdm")
            else: l = spec_addE(env(q), fam[q], fam[q], 1)
            T.add_rule("def E", l.v, env(q + 1).v)

        class Inv(EnvInv):
            def check(s, i, locs, phase):
                if phase == "init":
                    hit = [v for v, x in locs.items() if v in s.assigned and isinstance(x, Arr) and x.ndim == 3 and x.shape == start.shape and T.equal(x.v, start.v)[0]] if True else None
                    s.acc[:] = hit
                    C().ob("correlations.start", bool(hit), "tensor", "" if hit else "the environment before the gap at %s differs from its definition" % pint(lo))
                    if not hit: raise PathEnd()
                    return
                EnvInv.check(s, i, locs, phase)
        return Inv("correlations.gap", env, unfold, 1)
    c.data["loop_handler"] = handler
    with patched(mf, **layers()):
        a = [VList(ops), VList(sites)] if (k > 1 or c.choose(2)) else [ops[0], sites[0]]
        got = call("measure", m.measure, *a, P) if fermi else call("measure", m.measure, *a)
    plan()
    if loops["list"]: raise Unsupported("a gap between the operators is not traversed by a loop")
    g = loops["g"]
    nm, fam, mat, Z, b = g
    SR = segments(g, last + 1, False)
    want = spec([loops["final"], mat, A.conj(mat), SR, A.conj(SR)], ["acm", "ab", "cd", "bQ", "dQ"], "m")
    want = A.reshape(want, ()) * Z * A.conj(Z)
    ensure_eq("correlations.value", A.reshape(A.toarr(got), ()), want)
    ok = m._tensors is m._glist and m._mat is m._gauge[2] and m._Z is m._gauge[3] and pure(m._gauge[1]) and not m._tensors.sym["over"] and m._mat.version == 0
    C().ob("correlations.state-unchanged", ok, "engine", "fields of the state were changed other than by moving its centre")
    ensure_frame("correlations.operators-unchanged", *ops)
    if P is not None: C().ob("correlations.strings-unchanged", pure(P), "engine")


for _k in (1, 2, 3):
    for _f in (0, 1):
        R.group("correlations.%d%s" % (_k, "f" if _f else ""), ["MPS.measure", "MPS.__measure__"], bounded_only=True, maxpaths=1500,
                bound="%d operators%s; any sites, chain length, dimensions and entries (proved per number of operators)" % (_k, " with strings" if _f else ""))(lambda _k=_k, _f=_f: correlations(_k, _f))
