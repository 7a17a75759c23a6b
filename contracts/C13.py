"""C13: engine environments always describe the current state."""
from .base import *
from .callee import *
from . import tdvp
R = Registry()


def HM(): return world().load("lib.mpslib.Hamiltonians")


@R.group("tdvp.environments", ["TimeEvolutionEngine.__doTDVP__"], maxpaths=900)
def _():
    tdvp.prove_tdvp(False, True)


@R.fallback("tdvp.environments", "chains of 2 and 3 sites, up to 2 steps")
def _():
    k = C().choose(3)
    tdvp.bounded_tdvp([2, 3, 3][k], [2, 1, 2][k], ["LAN", "SEXPMV", "RK45"][k], None, False, 0, False, True)


@R.group("tdvp.environments.two-sites", ["TimeEvolutionEngine.__doTDVP__"])
def _():
    n = sint("numsteps")
    assume(n >= 1)
    tdvp.bounded_tdvp(2, n, ["LAN", "SEXPMV", "RK45"][C().choose(3)], None, False, sint("it0"), False, True)


from . import dmrg


@R.group("dmrg.one-site", ["DMRGengine.simulate", "DMRGengine.__simulate__", "DMRGengine.optimize", "Container.position"], maxpaths=600)
def _(): dmrg.prove_simulate()


@R.fallback("dmrg.one-site", "chains of 2 to 4 sites, up to 2 sweeps")
def _():
    k = C().choose(4)
    dmrg.bounded_simulate([2, 2, 3, 4][k], [1, 2, 2, 1][k], ["AR", "LAN", "LOBPCG", "AR"][k], [None, 1, None, 2][k])


@R.group("dmrg.one-site.short", ["DMRGengine.simulate", "DMRGengine.__simulate__"], bounded_only=True, bound="chains of 2 to 4 sites, up to 2 sweeps, symbolic dimensions and entries")
def _():
    k = C().choose(4)
    dmrg.bounded_simulate([2, 2, 3, 4][k], [1, 2, 2, 1][k], ["AR", "LAN", "LOBPCG", "AR"][k], [None, 1, None, 2][k])


@R.group("dmrg.two-site", ["DMRGengine.simulateTwoSite", "DMRGengine.__simulateTwoSite__"], maxpaths=900)
def _(): dmrg.prove_two_site()


@R.fallback("dmrg.two-site", "chains of 2 and 3 sites, one sweep")
def _():
    k = C().choose(3)
    dmrg.bounded_simulate([2, 3, 3][k], 1, ["AR", "LAN", "LOBPCG"][k], [None, None, 1][k], True)


@R.group("dmrg.two-site.short", ["DMRGengine.simulateTwoSite", "DMRGengine.__simulateTwoSite__"], bounded_only=True, bound="chains of 2 and 3 sites, one sweep, symbolic dimensions and entries")
def _():
    k = C().choose(3)
    dmrg.bounded_simulate([2, 3, 3][k], 1, ["AR", "LAN", "LOBPCG"][k], [None, None, 1][k], True)


# ---- Container.position / update / truncateMPS, constructors -------------------------------------------------------
class PosWorld:
    """chain with centre p moved to n: T the tensors before, NT the tensors replaced by the move (contract of MPS.position,
    C01), LE/RE the environments of the state before, LN/RN those of the state after in the moved range"""
    def __init__(s, N, p):
        s.N, s.p = N, p
        s.lb, s.rb = sym("lb", s.b(0), s.b(0), s.w(0)), sym("rb", s.b(N), s.b(N), s.w(N))
        s.W = VList.family(lambda q: sym("W[%s]" % q, s.w(SInt.mk(q)), s.w(SInt.mk(q) + 1), s.d(SInt.mk(q)), s.d(SInt.mk(q))), N)

    def b(s, k, f="D"):
        k = SInt.mk(pint(k))
        for f0 in (0, s.N, s.p):
            if k == f0: return bonddim("D", SInt.mk(pint(f0)))
        return bonddim(f, k)
    def w(s, k):
        k = SInt.mk(pint(k))
        for f0 in (0, s.N, s.p):
            if k == f0: return bonddim("w", SInt.mk(pint(f0)))
        return bonddim("w", SInt.mk(pint(k)))
    def d(s, k): return bonddim("d", SInt.mk(pint(k)))
    def T(s, q): return sym("T[%s]" % pint(q), s.b(q), s.b(q + 1), s.d(q))
    def NT(s, q, lo, hi):      # lo, hi: the end bonds of the moved range (their dimensions may change too, except the fixed end)
        return sym("NT[%s]" % pint(q), s.b(q, "D'"), s.b(q + 1, "D'"), s.d(q))
    def LE(s, k): return s.lb if k == 0 else s.at_p("LE") if k == s.p else sym("LE[%s]" % pint(k), s.b(k), s.b(k), s.w(k))
    def at_p(s, f): return sym(f + "p", s.b(s.p), s.b(s.p), s.w(s.p))
    def LN(s, k): return sym("LN[%s]" % pint(k), s.b(k, "D'"), s.b(k, "D'"), s.w(k))
    def RE(s, k): return s.rb if k == s.N else s.at_p("RE") if k == s.p else sym("RE[%s]" % pint(k), s.b(k), s.b(k), s.w(k))
    def RN(s, k): return sym("RN[%s]" % pint(k), s.b(k, "D'"), s.b(k, "D'"), s.w(k))


def container(N, w, m, p, cls=None):
    e = EN().Container.__new__(EN().Container)
    e._mps, e._mpo, e._lb, e._rb = m, w.W, w.lb, w.rb
    e._L, e._R = VList(), VList()
    return e


class MoveInv:
    """loop over the moved sites: the environments of the sites passed so far belong to the new tensors"""
    def __init__(s, e, w, p, n, right): s.e, s.w, s.p, s.n, s.right = e, w, p, n, right
    @property
    def special(s): return (s.p,) if s.right else (s.p - 1,)
    fields = ()
    def lists(s): return [s.e._L, s.e._R]

    def check(s, i, locs, phase):
        e, w = s.e, s.w
        if phase == "init":
            frame("position.early", e._L, {})
            frame("position.early", e._R, {})
            C().ob("position.moved-first", len(e._mps._moves) == 1, "engine", "environments are renewed before the centre is moved")
            return
        k = s.index
        t = e._mps._tensors[k]
        if s.right:
            frame("position.L", e._L, {k + 1: 1})
            frame("position.R", e._R, {})
            old = w.LE(k) if k == s.p else w.LN(k)
            ensure_eq("position.L.element", e._L[k + 1], spec_addlayer(old, t, w.W[k], t, 1))
        else:
            frame("position.L", e._L, {})
            frame("position.R", e._R, {w.N - k: 1})
            old = w.RE(k + 1) if k == s.p - 1 else w.RN(k + 1)
            ensure_eq("position.R.element", e._R[w.N - k], spec_addlayer(old, t, w.W[k], t, -1))

    def havoc(s, i, locs):
        e, w = s.e, s.w
        s.index = i
        if s.right:
            def L(k):
                if k <= s.p: return w.LE(k)
                return w.LN(k) if k <= i else Poison(POIS)
            rows(e._L, L, w.N + 1)
            rows(e._R, lambda j: w.RE(w.N - j) if w.N - j >= s.p else Poison(POIS), w.N + 1)
        else:
            def R_(j):
                k = w.N - j
                if k >= s.p: return w.RE(k)
                return w.RN(k) if k > i else Poison(POIS)
            rows(e._R, R_, w.N + 1)
            rows(e._L, lambda k: w.LE(k) if k <= s.p else Poison(POIS), w.N + 1)
        return {}


from .tdvp import rows, frame, POIS, EN


def pos_setup():
    EN(); MF()
    c = C()
    N, p = sint("N"), sint("p")
    assume(N >= 1); assume(p >= 0); assume(p <= N)
    w = PosWorld(N, p)
    m = mps_obj(N, VList.family(lambda q: w.T(SInt.mk(q)), N), p, sym("mat0", w.b(p), w.b(p)), cscalar("Zm"))
    m._moves = []
    e = container(N, w, m, p)
    rows(e._L, lambda k: w.LE(k) if k <= p else Poison(POIS), N + 1)
    rows(e._R, lambda j: w.RE(N - j) if N - j >= p else Poison(POIS), N + 1)
    return N, p, w, m, e


@R.group("container.position", ["Container.position"])
def _():
    N, p, w, m, e = pos_setup()
    c = C()
    n = sint("n")
    case = c.choose(4)
    assume([n < 0, n > N, n >= p, n < p][case])
    if case == 2: assume(n <= N)
    if case == 3: assume(n >= 0)

    def move(bond, *a, **k):
        m._moves.append(bond)
        C().ob("position.target", bool(bond == n), "z3", "the centre is moved to %s" % bond)
        old = m._tensors
        m._tensors = VList.family(lambda q: (w.NT(SInt.mk(q), p, n) if (SInt.mk(q) >= p and SInt.mk(q) < n) or (SInt.mk(q) >= n and SInt.mk(q) < p) else w.T(SInt.mk(q))), N)
        m._position, m._mat = bond, sym("matn", w.b(bond, "D'"), w.b(bond))
    m.__dict__["position"] = m.__dict__["__position__"] = move
    inv = MoveInv(e, w, p, n, case == 2)
    c.data["loop_handler"] = lambda rng, locs, lid: inv
    with patched(MF(), **layers()):
        if case < 2:
            ensure_raises("position.refuses", lambda: e.position(n), (IndexError,))
            C().ob("position.refusal-unchanged", not m._moves and bool(m._position == p), "engine")
            frame("position.refusal", e._L, {}); frame("position.refusal", e._R, {})
            return
        r = call("position", e.position, n)
    C().ob("position.returns-self", r is e, "engine")
    C().ob("position.moved-once", len(m._moves) == 1, "engine", "%d moves" % len(m._moves))
    ensure("position.position", m._position == n)
    # the environments of the new state
    k = sint("k")
    if case == 2:
        assume(k >= p); assume(k <= n)
        if k == p: ensure_eq("position.L.all", e._L[k], w.LE(p))
        else: ensure_eq("position.L.all", e._L[k], w.LN(k))
        j = sint("j")
        assume(j >= n); assume(j <= N)
        ensure_eq("position.R.kept", e._R[N - j], w.RE(j))
    else:
        assume(k >= n); assume(k <= p)
        if k == p: ensure_eq("position.R.all", e._R[N - k], w.RE(p))
        else: ensure_eq("position.R.all", e._R[N - k], w.RN(k))
        j = sint("j")
        assume(j >= 0); assume(j <= n)
        ensure_eq("position.L.kept", e._L[j], w.LE(j))


def conc_container(N, p, cls="Container", rebuild=True):
    """concrete chain with correct environments and centre at p"""
    D = [dim("D%d" % k) for k in range(N + 1)]
    wd = [dim("w%d" % k) for k in range(N + 1)]
    d = [dim("d%d" % k) for k in range(N)]
    w = dmrg.ConcW()
    w.lb, w.rb = sym("lb", D[0], D[0], wd[0]), sym("rb", D[N], D[N], wd[N])
    w.W = VList([sym("W%d" % k, wd[k], wd[k + 1], d[k], d[k]) for k in range(N)])
    ts = [(tdvp.left_iso if k < p else tdvp.right_iso)(sym("T%d" % k, D[k], D[k + 1], d[k]), "") for k in range(N)]
    m = mps_obj(N, VList(ts), p, sym("mat0", D[p], D[p]), cscalar("Zm"))
    m._moves = []
    st = tdvp.Stepper(m, N)
    m.__dict__["__position__"] = m.__dict__["position"] = st
    e = getattr(EN(), cls).__new__(getattr(EN(), cls))
    e._mps, e._mpo, e._lb, e._rb, e._N, e._filename = m, w.W, w.lb, w.rb, N, "F"
    if rebuild:
        e._L = VList([left_env(e, k) if k <= p else Poison(POIS) for k in range(N + 1)])
        e._R = VList([right_env(e, N - j) if N - j >= p else Poison(POIS) for j in range(N + 1)])
    return e


def left_env(e, k):
    x = e._lb
    for j in range(k): x = spec_addlayer(x, e._mps._tensors[j], e._mpo[j], e._mps._tensors[j], 1)
    return x


def right_env(e, k):
    x = e._rb
    for j in range(e._mps._N - 1, k - 1, -1): x = spec_addlayer(x, e._mps._tensors[j], e._mpo[j], e._mps._tensors[j], -1)
    return x


@R.fallback("container.position", "chains of 1 to 3 sites, all positions")
def _():
    EN(); MF()
    c = C()
    N = [1, 2, 3][c.choose(3)]
    p = c.choose(N + 1)
    n = c.choose(N + 3) - 1
    e = conc_container(N, p)
    with patched(MF(), prepareTensor=prepareTensor, **layers()):
        if n < 0 or n > N:
            L, R_ = list(list.__iter__(e._L)), list(list.__iter__(e._R))
            ensure_raises("position.refuses", lambda: e.position(n), (IndexError,))
            C().ob("position.refusal-unchanged", e._mps._position == p and all(x is y for x, y in zip(L + R_, list(list.__iter__(e._L)) + list(list.__iter__(e._R)))), "engine")
            return
        r = call("position", e.position, n)
    C().ob("position.returns-self", r is e, "engine")
    ensure("position.position", e._mps._position == n)
    for k in range(N + 1):
        if k <= n: ensure_eq("position.L.all", e._L[k], left_env(e, k))
        if k >= n: ensure_eq("position.R.all", e._R[N - k], right_env(e, k))


# ---- rebuilding the environments --------------------------------------------------------------------------------------
def rebuild_setup(cls="Container"):
    EN(); MF()
    N = sint("N")
    assume(N >= 1)
    w = PosWorld(N, SInt.mk(pint(0)))
    m = mps_obj(N, VList.family(lambda q: sym("OLD[%s]" % q, w.b(SInt.mk(q)), w.b(SInt.mk(q) + 1), w.d(SInt.mk(q))), N), sint("pos"), sym("matO", 1, 1), cscalar("Zm"))
    m._moves = []
    e = getattr(EN(), cls).__new__(getattr(EN(), cls))
    e._mps, e._mpo, e._lb, e._rb = m, w.W, w.lb, w.rb
    e._L, e._R = VList(), VList()
    events = []
    attach_rebuild(m, w, N, events)
    return N, w, m, e, events


def attach_rebuild(m, w, N, events):
    def move(bond, *a, **k):
        events.append(("position", bond))
        if not (bond >= 0) or not (bond <= N): raise VCFail("position.pre", "bond outside the chain")
        nm = "T%d" % len(events)
        m._tensors = VList.family(lambda q: sym("%s[%s]" % (nm, q), w.b(SInt.mk(q)), w.b(SInt.mk(q) + 1), w.d(SInt.mk(q))), N)
        m._position = bond
        m._mat = sym("mat" + nm, w.b(0), w.b(0))

    def truncate(*a, **k):
        events.append(("truncate", a, k))
        m._tensors = VList.family(lambda q: sym("TR[%s]" % q, w.b(SInt.mk(q)), w.b(SInt.mk(q) + 1), w.d(SInt.mk(q))), N)
        m._position = sint(C().fresh("ptr"))
        return m
    m.__dict__["position"] = m.__dict__["__position__"] = move
    m.__dict__["truncate"] = truncate


def rebuild_stubs(m_of, e_of, w, N, events):
    """contracts of getL/getR (C03/blocks.left, blocks.right): called with the current tensors, the operator and a boundary"""
    def getR(ts, mpo, rb):
        C().ob("rebuild.R.tensors", ts is m_of()._tensors, "engine", "environments of other tensors")
        C().ob("rebuild.R.operator", mpo is e_of()._mpo, "engine", "environments of another operator")
        ensure_eq("rebuild.R.boundary", rb, w.rb)
        events.append(("R", m_of()._position))
        return VList.family(lambda j: RENV(w, N - 1 - SInt.mk(j)), N)

    def getL(ts, mpo, lb):
        C().ob("rebuild.L.tensors", ts is m_of()._tensors, "engine", "environments of other tensors")
        C().ob("rebuild.L.operator", mpo is e_of()._mpo, "engine", "environments of another operator")
        ensure_eq("rebuild.L.boundary", lb, w.lb)
        events.append(("L", m_of()._position))
        return VList.family(lambda j: LENV(w, SInt.mk(j) + 1), N)
    return dict(getL=getL, getR=getR)


def RENV(w, k): return w.rb if k == w.N else sym("RV[%s]" % pint(k), w.b(k), w.b(k), w.w(k))
def LENV(w, k): return w.lb if k == 0 else sym("LV[%s]" % pint(k), w.b(k), w.b(k), w.w(k))


def ensure_rebuilt(e, w, N, events, left):
    m = e._mps
    ensure("rebuild.position", m._position == 0)
    i = [x[0] for x in events].index("R") if any(x[0] == "R" for x in events) else -1
    C().ob("rebuild.R.once", i >= 0, "engine", "right environments are not rebuilt")
    C().ob("rebuild.after-move", all(x[0] != "position" and x[0] != "truncate" for x in events[i:]), "engine", "the state is changed after the environments were built")
    ensure("rebuild.R.length", e._R.symlen() == N + 1)
    ensure("rebuild.L.length", e._L.symlen() == N + 1)
    j = sint("j")
    assume(j >= 0); assume(j <= N)
    ensure_eq("rebuild.R.all", e._R[j], RENV(w, N - j))
    ensure_eq("rebuild.L.first", e._L[0], w.lb)
    if left:
        ensure_eq("rebuild.L.all", e._L[j], LENV(w, j))
    ensure_frame("rebuild.frame", w.lb, w.rb)


@R.group("container.update", ["Container.update", "Container.truncateMPS"])
def _():
    N, w, m, e, events = rebuild_setup()
    trunc = C().choose(2) == 1
    with patched(MF(), **rebuild_stubs(lambda: m, lambda: e, w, N, events)):
        if trunc:
            th, D, tol, ncv, pinv = rscalar("th"), sint("Dmx"), rscalar("tol"), sint("ncv"), rscalar("pinv")
            r = call("truncateMPS", e.truncateMPS, th, D, tol, ncv, pinv)
        else: r = call("update", e.update)
    C().ob("rebuild.returns-self", r is e and e._mps is m, "engine")
    if trunc:
        tr = [x for x in events if x[0] == "truncate"]
        C().ob("truncate.once", len(tr) == 1, "engine")
        kw = bind(MPSM().MPS.truncate, tr[0][1], tr[0][2])
        C().ob("truncate.arguments", kw.get("schmidt_thresh") is th and kw.get("D") is D and kw.get("tol") is tol and kw.get("ncv") is ncv and kw.get("pinv") is pinv, "engine", "arguments are dropped: %s" % sorted(kw))
    else: C().ob("update.no-truncation", all(x[0] != "truncate" for x in events), "engine")
    ensure_rebuilt(e, w, N, events, False)


def bind(fn, a, k):
    import inspect
    names = list(inspect.signature(fn).parameters)[1:]
    d = dict(zip(names, a))
    d.update(k)
    return d


@R.group("engine.constructors", ["DMRGengine.__init__", "TimeEvolutionEngine.__init__", "TimeEvolutionEngine.initializeTDVP", "TimeEvolutionEngine.TDVP"])
def _():
    EN(); MF()
    c = C()
    kind = ["dmrg", "tdvp", "TDVP", "init"][c.choose(4)]
    boundary = c.choose(3)       # 0: none given, 1: both given, 2: both given, shapes do not fit
    N = sint("N")
    assume(N >= 1)
    w = PosWorld(N, SInt.mk(pint(0)))
    if boundary == 0:
        w.b_, w.w_ = w.b, w.w
        w.b = lambda k, f="D": 1 if (k == 0 or k == N) else w.b_(k, f)
        w.w = lambda k: 1 if (k == 0 or k == N) else w.w_(k)
        w.lb = w.rb = Arr(T.eye(1))
        w.lb = A.reshape(w.lb, (1, 1, 1)); w.rb = A.reshape(w.rb, (1, 1, 1))
    m = mps_obj(N, VList.family(lambda q: sym("OLD[%s]" % q, w.b(SInt.mk(q)), w.b(SInt.mk(q) + 1), w.d(SInt.mk(q))), N), sint("pos"), sym("matO", 1, 1), cscalar("Zm"))
    old = (m._tensors, m._mat, m._position, m._Z)
    events, box = [], {}

    def move(self, bond, *a, **k):
        events.append(("position", bond))
        box["m"] = self
        if not (bond >= 0) or not (bond <= N): raise VCFail("position.pre", "bond outside the chain")
        nm = "T%d" % len(events)
        self._tensors = VList.family(lambda q: sym("%s[%s]" % (nm, q), w.b(SInt.mk(q)), w.b(SInt.mk(q) + 1), w.d(SInt.mk(q))), N)
        self._position = bond
        self._mat = sym("mat" + nm, w.b(0), w.b(0))
    mpo = w.W
    en = EN()
    cls = en.DMRGengine if kind == "dmrg" else en.TimeEvolutionEngine
    lb = rb = None
    if boundary == 1: lb, rb = w.lb, w.rb
    if boundary == 2:
        lb = sym("lbx", dim("X1"), dim("X1"), dim("X2")); rb = sym("rbx", dim("X3"), dim("X3"), dim("X4"))
        i = c.choose(4)
        assume(~(lb.shape[0] == w.b(0)) if i == 0 else ~(rb.shape[0] == w.b(N)) if i == 1 else ~(lb.shape[2] == w.w(0)) if i == 2 else ~(rb.shape[2] == w.w(N)))
    eng = []

    class E_:
        _mpo = property(lambda s: box["e"]._mpo)
    real_new = cls.__new__
    e = cls.__new__(cls)
    box["e"], box["m"] = e, m
    stubs = rebuild_stubs(lambda: box["m"], lambda: box["e"], w, N, events)
    with methods(MPSM().MPS, position=move, __position__=move), patched(MF(), **stubs):
        if boundary == 2:
            ensure_raises("constructor.refuses", lambda: cls.__init__(e, m, mpo, "F", lb, rb), (AssertionError,))
            return
        if kind == "TDVP":
            box["first"] = True
            class Cap(cls):
                def __new__(k, *a, **kw):
                    box["e"] = object.__new__(k)
                    return box["e"]
            e = call("constructor", lambda: cls.TDVP.__func__(Cap, m, mpo, "F", lb, rb))
            C().ob("constructor.returns", e is box["e"], "engine")
        elif boundary == 0 and c.choose(2): call("constructor", cls.__init__, e, m, mpo, "F")
        else: call("constructor", cls.__init__, e, m, mpo, "F", lb, rb)
        if kind == "init":
            box["e"] = e
            e._mps._position = sint("anywhere")
            e._L, e._R = VList(), VList()
            del events[:]
            call("initializeTDVP", e.initializeTDVP)
    mm = e._mps
    if kind == "dmrg": C().ob("constructor.mps", mm is m, "engine", "the engine works on another object")
    else:
        C().ob("constructor.mps-copied", mm is not m and m._tensors is old[0] and m._mat is old[1] and m._position is old[2] and m._Z is old[3], "engine", "the user's state is used or changed")
        if kind != "init":
            ensure("constructor.time", e._t0 == 0); ensure("constructor.iteration", e._it == 0); ensure("constructor.weight", e._tw == 0)
    ensure_eq("constructor.boundary", e._lb, w.lb); ensure_eq("constructor.boundary", e._rb, w.rb)
    C().ob("constructor.mps-moved", box["m"] is mm, "engine", "the centre of another object is moved")
    ensure("constructor.N", e._N == N)
    C().ob("constructor.filename", e._filename == "F", "engine")
    k = sint("site")
    assume(k >= 0); assume(k < N)
    ensure_eq("constructor.mpo", e._mpo[k], w.W[k])
    ensure_rebuilt(e, w, N, events, True)


def moving(w_):
    """contract of MPS.position on a concrete chain: other tensors of the same end dimensions, centre at the bond"""
    def move(self, bond, *a, **k):
        N = self._N
        if not (bond >= 0) or not (bond <= N): raise VCFail("position.pre", "bond outside the chain")
        nm = C().fresh("M")
        D0 = [t.shape[0] for t in list.__iter__(self._tensors)] + [list(list.__iter__(self._tensors))[-1].shape[1]]
        D = [D0[0]] + [dim("%sD%d" % (nm, k)) for k in range(1, N)] + [D0[N]]
        self._tensors = VList([sym("%sT%d" % (nm, k), D[k], D[k + 1], t.shape[2]) for k, t in enumerate(list.__iter__(self._tensors))])
        self._position = bond
        self._mat = sym(nm + "mat", D[bond] if isinstance(bond, int) else 1, D[bond] if isinstance(bond, int) else 1)
    return move


@R.fallback("container.update", "chains of 1 to 3 sites")
def _():
    c = C()
    N = 1 + c.choose(3)
    EN(); MF()
    e = conc_container(N, min(1, N), rebuild=False)
    m = e._mps
    for k in ("position", "__position__"): m.__dict__.pop(k)
    e._L, e._R = VList(), VList()
    tr = []
    mv = moving(None)

    def trunc(self, *a, **k):
        tr.append(bind(orig, a, k))
        mv(self, 0)
        self._position = [0, N][c.choose(2)]
        return self
    orig = MPSM().MPS.truncate
    do = c.choose(2)
    th, D, tol, ncv, pinv = rscalar("th"), sint("Dmx"), rscalar("tol"), sint("ncv"), rscalar("pinv")
    with methods(MPSM().MPS, position=mv, __position__=mv, truncate=trunc), patched(MF(), **layers()):
        r = call("truncateMPS", e.truncateMPS, th, D, tol, ncv, pinv) if do else call("update", e.update)
    C().ob("rebuild.returns-self", r is e and e._mps is m, "engine")
    C().ob("truncate.once", len(tr) == do, "engine")
    if do: C().ob("truncate.arguments", tr[0].get("schmidt_thresh") is th and tr[0].get("D") is D and tr[0].get("tol") is tol and tr[0].get("ncv") is ncv and tr[0].get("pinv") is pinv, "engine")
    rebuilt_conc(e, False)


def rebuilt_conc(e, left):
    N = e._mps._N
    ensure("rebuild.position", e._mps._position == 0)
    ensure("rebuild.length", e._L.symlen() == N + 1 and e._R.symlen() == N + 1)
    for k in range(N + 1):
        ensure_eq("rebuild.R.all", e._R[N - k], right_env(e, k))
        if left or k == 0: ensure_eq("rebuild.L.all", e._L[k], left_env(e, k))


@R.fallback("engine.constructors", "chains of 1 to 3 sites")
def _():
    c = C()
    N = 1 + c.choose(3)
    EN(); MF()
    e0 = conc_container(N, min(1, N), rebuild=False)
    m, W, lb, rb = e0._mps, e0._mpo, e0._lb, e0._rb
    for k in ("position", "__position__"): m.__dict__.pop(k)
    old = (m._tensors, m._mat, m._position, m._Z)
    mv = moving(None)
    kind = c.choose(3)
    cls = EN().DMRGengine if kind == 0 else EN().TimeEvolutionEngine
    with methods(MPSM().MPS, position=mv, __position__=mv), patched(MF(), **layers()):
        e = call("constructor", cls, m, W, "F", lb, rb)
        if kind == 2:
            mv(e._mps, N)
            e._L, e._R = VList(), VList()
            call("initializeTDVP", e.initializeTDVP)
    if kind == 0: C().ob("constructor.mps", e._mps is m, "engine")
    else:
        C().ob("constructor.mps-copied", e._mps is not m and m._tensors is old[0] and m._mat is old[1] and m._position is old[2] and m._Z is old[3], "engine")
        ensure("constructor.time", e._t0 == 0); ensure("constructor.iteration", e._it == 0); ensure("constructor.weight", e._tw == 0)
    ensure_eq("constructor.boundary", e._lb, lb); ensure_eq("constructor.boundary", e._rb, rb)
    for k in range(N): ensure_eq("constructor.mpo", e._mpo[k], W[k])
    rebuilt_conc(e, True)


# ---- the eigensolver front ends: handed the effective Hamiltonian and the current tensor, return the lowest pair ----------
def _solver(kind):
    import numpy as rnp
    mf = MF()
    c = C()
    a, b, m1, m2, s = [dim(q) for q in ("a", "b", "m1", "m2", "s")]
    cx = bool(c.choose(2))
    bond = kind in BOND
    if bond:                                  # the operator on a bond matrix: the site left or right of it is absorbed
        b = a
        L, Rr, W, X = sym("L", a, a, m1, cx=cx), sym("R", a, a, m2, cx=cx), sym("W", m1, m2, s, s, cx=cx), sym("X", a, a)
        M = sym("M", a, a, s, cx=cx)
        pos = ("right", "left")[c.choose(2)]
        n, shape = a * a, (a, a)
        if kind == "eigshbondsimple":
            Rr = sym("R", a, a, m1, cx=cx)
            want = lambda P: spec([L, P, Rr], ["acm", "ab", "bdm"], "cd")
            args = [L, Rr, X]
        else:
            ins = {"right": (["acm", "abs", "mnst", "cdt", "be", "efn"], "df"), "left": (["xym", "xa", "abs", "mnst", "cdt", "bdn"], "yc")}[pos]
            want = lambda P: spec([L, M, W, A.conj(M), P, Rr] if pos == "right" else [L, P, M, W, A.conj(M), Rr], *ins)
            args = [L, W, M, Rr, X, pos]
    else:
        L, Rr, W, X = sym("L", a, a, m1, cx=cx), sym("R", b, b, m2, cx=cx), sym("W", m1, m2, s, s, cx=cx), sym("X", a, b, s)
        n, shape = a * b * s, (a, b, s)
        want = lambda P: spec([L, P, W, Rr], ["acm", "abs", "mnst", "bdn"], "cdt")
        args = [L, W, Rr, X]
    k, ret = [(1, 1), (3, 1), (3, 2)][c.choose(3)]
    if kind == "eigshbond" and ret > 1: return             # not implemented there (the list is never filled)
    if kind == "eigshbondsimple" and k > 1: return         # one pair only
    if kind == "lobpcg": k = ret
    ev = rnp.array([0.75, -1.25, 0.5][:k]) if k > 1 else rnp.array([-0.5])
    vec = sym("vec", n, k)
    seen = []

    def probe(op):
        P = sym("probe", n)
        seen.append((P, op(P)))

    def linop(shape, matvec=None, rmatvec=None, matmat=None, dtype=None):
        ensure("solver.dimension", core.SBool(zint(shape[0]) == zint(n)))
        ensure("solver.dimension", core.SBool(zint(shape[1]) == zint(n)))
        C().ob("solver.dtype", dtype.kind == "c", "engine")
        return A.Namespace("LinearOperator", shape=shape, matvec=matvec, dtype=dtype)

    def eigsh(op, k=6, which="LM", v0=None, ncv=None, maxiter=None, tol=0, **kw):
        if kw: raise Unsupported("options of eigsh")
        probe(op.matvec)
        C().ob("solver.which", which == "SA", "engine", "eigenvalues requested: %s" % which)
        C().ob("solver.number", k == len(ev), "engine", "%s pairs requested" % k)
        C().ob("solver.options", tol == 0.125 and ncv is opts["numcv"], "engine")
        ensure_eq("solver.initial-vector", A.reshape(v0, X.shape), X)
        return ev, vec

    def lobpcg(op, X=None, largest=True, **kw):
        if kw: raise Unsupported("options of lobpcg")
        probe(op.matvec)
        C().ob("solver.which", largest is False, "engine")
        ensure_shape("solver.block", X, (n, ret))
        ensure_eq("solver.initial-vector", A.reshape(X[:, 0], shape), sym("X", *shape))
        return ev, vec

    class Lan:
        def __init__(q, mv, dot, zeros, Ndiag, ncv, numeig, delta, deltaEta):
            probe(mv)
            C().ob("solver.options", (Ndiag, ncv, delta, deltaEta) == (7, 55, 0.25, 0.5), "engine", "%s" % ((Ndiag, ncv, delta, deltaEta),))
            C().ob("solver.number", numeig == ret, "engine")
        def __simulate__(q, initialstate, reortho=False, verbose=False):
            ensure_eq("solver.initial-vector", A.reshape(initialstate, X.shape), X)
            C().ob("solver.dtype", initialstate.v.cx, "engine")
            return ev, VList([vec[:, q_] for q_ in range(len(ev))]), True
        simulate = __simulate__
    np_ = world().np

    class NP:
        def __getattr__(s_, q): return getattr(np_, q)
        nonzero = staticmethod(rnp.nonzero)
        sort = staticmethod(rnp.sort)
        argsort = staticmethod(rnp.argsort)
        argmin = staticmethod(rnp.argmin)
    spns = A.Namespace("scipy", sparse=A.Namespace("sparse", linalg=A.Namespace("linalg", eigsh=eigsh, lobpcg=lobpcg)))
    opts = {"eigshbond": dict(tolerance=0.125, numvecs=k, numcv=sint("ncv")), "eigshbondsimple": dict(tolerance=0.125, numvecs=k, numcv=sint("ncv")),
            "lanczosbond": dict(Ndiag=7, nmax=55, numeig=ret, delta=0.25, deltaEta=0.5),
            "eigsh": dict(tolerance=0.125, numvecs=k, numcv=sint("ncv"), numvecs_returned=ret), "lobpcg": dict(numvecs_returned=ret),
            "lanczos": dict(Ndiag=7, nmax=55, numeig=ret, delta=0.25, deltaEta=0.5)}[kind]
    if kind == "lobpcg" and ret > 1: return
    if kind.startswith("lanczos"): ev = rnp.sort(ev)
    with patched(mf, np=NP(), sp=spns, LinearOperator=linop, lanEn=A.Namespace("LanczosEngine", LanczosEngine=Lan)):
        e, v = returned(kind, call(kind, getattr(mf, kind), *args, **opts))
    C().ob("solver.called-once", len(seen) == 1, "engine")
    ensure_eq("solver.effective-hamiltonian", A.reshape(seen[0][1], shape), want(A.reshape(seen[0][0], shape)))
    order = list(rnp.argsort(ev))
    es, vs = ([e], [v]) if ret == 1 else (list(e), list(v))
    C().ob("solver.count", len(es) == ret and len(vs) == ret, "engine")
    for q in range(ret):
        if kind == "eigshbondsimple": es = list(e)         # the eigenvalue is left in the solver's array
        C().ob("solver.lowest", float(es[q]) == float(ev[order[q]]), "engine", "energy %s, lowest %s" % (es[q], ev[order[q]]))
        ensure_eq("solver.vector", vs[q], A.reshape(vec[:, int(order[q])], shape))
    ensure_frame("solver.frame", *[x for x in args if hasattr(x, "shape")])


BOND = ("eigshbond", "lanczosbond", "eigshbondsimple")
for _k in ("eigsh", "lanczos", "lobpcg") + BOND: R.group("solver." + _k, ["mpsfunctions." + _k])(lambda k=_k: _solver(k))


# ---- infinite DMRG: shifting the unit cell ------------------------------------------------------------------------------
def open_word(ts, p, mat, close=None, names="s"):
    """operands and labels of the product of the cell with the centre matrix inserted, optionally followed by another matrix"""
    ops, labs, cur = [], [], names + "b0"
    for k in range(len(ts) + 1):
        if k == p:
            ops.append(mat); labs.append([cur, names + "m"]); cur = names + "m"
        if k < len(ts):
            ops.append(ts[k]); labs.append([cur, names + "b%d" % (k + 1), "%s%d" % (names, k)]); cur = names + "b%d" % (k + 1)
    if close is not None:
        ops.append(close); labs.append([cur, names + "c"]); cur = names + "c"
    return ops, labs, names + "b0", cur


def product(words, glue, ends):
    """Einstein sum of words joined at their ends; ends: output labels"""
    ops, labs = [], []
    ren = {}
    for a, b in glue: ren[b] = ren.get(a, a)
    for o, l, _, _ in words:
        ops += o; labs += l
    labs = [[ren.get(x, x) for x in lab] for lab in labs]
    return spec_list(ops, labs, [ren.get(x, x) for x in ends])


def spec_list(ops, labs, out): return Arr(T.einsum([A.toarr(o).v for o in ops], labs, out))


def ring(m, shift=0):
    """amplitudes of one cell closed on itself, physical axes rotated by shift; the norm factor is left out"""
    N = m._N
    w = open_word(list(list.__iter__(m._tensors)), m._position, m._mat, m._connector)
    out = ["s%d" % ((k + shift) % N) for k in range(N)]
    return product([w], [(w[2], w[3])], out)


def boundary_hams(N, asked, mw):
    """stand-in for getBoundaryHams: the boundary operators of whatever state it is given"""
    given = {}

    def ham(mps, mp, regauge=False):
        asked.append((mps, mp, regauge))
        x, q = dim("x"), mps._tensors
        given.update(lb=sym("LB", q[0].shape[0], q[0].shape[0], mw), rb=sym("RB", q[N - 1].shape[1], q[N - 1].shape[1], mw), hl=rscalar("hl"), hr=rscalar("hr"))
        return given["lb"], given["rb"], sym("lbd", x, x), sym("rbd", x, x), given["hl"], given["hr"]
    return ham, given


def engine_from_boundaries(e, m, mpo, given, N):
    """the engine holds the boundary operators handed out for its state and the environments they generate"""
    ensure_eq("idmrg.boundary-left", e._lb, given["lb"])
    ensure_eq("idmrg.boundary-right", e._rb, given["rb"])
    C().ob("idmrg.boundary-energies", e._hl is given["hl"] and e._hr is given["hr"], "engine")
    C().ob("idmrg.objects", e._mps is m and e._mpo is mpo and e._filename == "F", "engine")
    ensure("idmrg.size", e._N == N)
    envs(e, N)


def envs(e, N):
    ensure("idmrg.position", e._mps._position == 0)
    ensure("idmrg.lists", e._L.symlen() == N + 1 and e._R.symlen() == N + 1)
    for k in range(N + 1): ensure_eq("idmrg.R", e._R[N - k], right_env(e, k))
    for k in range(N + 1): ensure_eq("idmrg.L", e._L[k], left_env(e, k))


def cell(N, p):
    """a unit cell in central form with its operator"""
    chi, mw = dim("chi"), dim("w")
    D = [chi] + [dim("D%d" % k) for k in range(1, N)] + [chi]
    wd = [mw] + [dim("w%d" % k) for k in range(1, N)] + [mw]
    d = [dim("d%d" % k) for k in range(N)]
    ts = [(tdvp.left_iso if k < p else tdvp.right_iso)(sym("T%d" % k, D[k], D[k + 1], d[k]), "") for k in range(N)]
    m = mps_obj(N, VList(ts), p, sym("mat0", D[p], D[p]), cscalar("Zm"), obc=False)
    m._connector = sym("conn", chi, chi)
    Ws = [sym("W%d" % k, wd[k], wd[k + 1], d[k], d[k]) for k in range(N)]
    hm = HM()
    mpo = hm.MPO.__new__(hm.MPO)
    mpo._mpo, mpo._N, mpo._dtype = VList(list(Ws)), N, A.CPLX
    return m, mpo, ts, Ws, wd, chi, mw


def idmrg(N, p, regauge):
    E_, M, mf = EN(), MPSM(), MF()
    c = C()
    c.data["full_bonds"] = True                  # precondition: no bond is larger than what its neighbours carry, so no move shrinks one
    m, mpo, ts, Ws, wd, chi, mw = cell(N, p)
    lb, rb = sym("lb", chi, chi, mw), sym("rb", chi, chi, mw)
    e = E_.IDMRGengine.__new__(E_.IDMRGengine)
    e._mps, e._mpo, e._lb, e._rb, e._N, e._filename = m, mpo, lb, rb, N, "F"
    e._L, e._R = VList(), VList()
    h = N // 2
    before = ring(m, h)
    word0 = (list(ts), p, m._mat)
    conn = m._connector
    grown = {1: [], -1: []}
    st = layers()
    real_add = st["addLayer"]

    def addLayer(E, A_, W, B_, dr):
        if E is e._lb or grown[1] and E is grown[1][-1][3]:
            if dr > 0 and not done: grown[1].append((A_, W, B_, None))
        r = real_add(E, A_, W, B_, dr)
        if not done:
            g = grown[1 if dr > 0 else -1]
            if g and g[-1][3] is None: g.pop()
            g.append((A_, W, B_, r))
        return r
    done = []
    st["addLayer"] = addLayer
    asked = []

    ham, given = boundary_hams(N, asked, wd[h])
    real_patch = mf.patchmpo

    def patchmpo(mp, index):
        done.append(1)
        return real_patch(mp, index)
    with patched(mf, prepareTensor=prepareTensor, patchmpo=patchmpo, getBoundaryHams=ham, **st):
        call("__update__", e.__update__, *((True,) if regauge else ()))
    mm = e._mps
    C().ob("idmrg.same-state-object", mm is m and e._mpo is mpo, "engine")
    ensure("idmrg.length", mm._tensors.symlen() == N)
    ensure("idmrg.operator-length", mpo._mpo.symlen() == N)
    for k in range(N): ensure_eq("idmrg.operator-shifted", mpo._mpo[k], Ws[(k + h) % N])
    if regauge:
        C().ob("idmrg.regauged", len(asked) == 1 and asked[0][0] is m and asked[0][1] is mpo and asked[0][2] is True, "engine", "boundary Hamiltonians of another state")
        engine_from_boundaries(e, m, mpo, given, N)
        return e, m
    C().ob("idmrg.no-regauge", not asked, "engine")
    # the ring of one cell is unchanged but for its starting point and a positive factor
    posray("idmrg.state", ring(mm), before)
    # the two halves absorbed into the boundaries, followed by each other around the new cell, are two old cells
    HL, HR = [g[0] for g in grown[1]], [g[0] for g in grown[-1]][::-1]
    C().ob("idmrg.halves", len(HL) == h and len(HR) == N - h and all(g[0] is g[2] for x in grown.values() for g in x), "engine", "%d and %d sites absorbed" % (len(HL), len(HR)))
    for k, g in enumerate(grown[1]): ensure_eq("idmrg.left-operator", g[1], Ws[k])
    for k, g in enumerate(grown[-1]): ensure_eq("idmrg.right-operator", g[1], Ws[N - 1 - k])
    x = lb
    for t, W in zip(HL, Ws): x = spec_addlayer(x, t, W, t, 1)
    ensure_eq("idmrg.left-boundary", e._lb, x)
    x = rb
    for t, W in zip(HR[::-1], Ws[::-1]): x = spec_addlayer(x, t, W, t, -1)
    ensure_eq("idmrg.right-boundary", e._rb, x)
    newts = list(list.__iter__(mm._tensors))
    w1 = open_word(HL, -1, None, names="u")
    w2 = open_word(newts, mm._position, mm._mat, names="v")
    w3 = open_word(HR, -1, None, names="w")
    got = product([w1, w2, w3], [(w1[3], w2[2]), (w2[3], w3[2])], [w1[2]] + ["u%d" % k for k in range(h)] + ["v%d" % k for k in range(N)] + ["w%d" % k for k in range(N - h)] + [w3[3]])
    o1 = open_word(word0[0], word0[1], word0[2], conn, names="u")
    o2 = open_word(word0[0], word0[1], word0[2], names="v")
    want = product([o1, o2], [(o1[3], o2[2])], [o1[2]] + ["u%d" % k for k in range(N)] + ["v%d" % k for k in range(N)] + [o2[3]])
    posray("idmrg.two-cells", got, want)
    # environments of the new cell
    envs(e, N)
    return e, m


@R.group("idmrg.shift", ["IDMRGengine.__update__", "mpsfunctions.patchmpo"], bounded_only=True, bound="unit cells of 2 to 4 sites, every centre position, symbolic dimensions and entries", maxpaths=1500)
def _():
    c = C()
    N = 2 + c.choose(3)
    idmrg(N, c.choose(N + 1), c.choose(2) == 1)


@R.group("idmrg.constructor", ["IDMRGengine.__init__", "DMRGengine.__init__"], bounded_only=True, bound="unit cells of 1 to 3 sites, every centre position, symbolic dimensions and entries")
def _():
    EN(); MPSM(); MF()
    c = C()
    c.data["full_bonds"] = True
    N = 1 + c.choose(3)
    m, mpo, ts, Ws, wd, chi, mw = cell(N, c.choose(N + 1))
    asked = []
    ham, given = boundary_hams(N, asked, mw)
    e = EN().IDMRGengine.__new__(EN().IDMRGengine)
    with patched(MF(), prepareTensor=prepareTensor, getBoundaryHams=ham, **layers()):
        call("constructor", e.__init__, m, mpo, "F")
    C().ob("idmrg.boundaries-of", len(asked) == 1 and asked[0][0] is m and asked[0][1] is mpo, "engine", "boundary Hamiltonians of another state")
    engine_from_boundaries(e, m, mpo, given, N)


@R.group("idmrg.simulate", ["IDMRGengine.simulate", "IDMRGengine.__simulate__", "IDMRGengine.simulateTwoSite", "IDMRGengine.__simulateTwoSite__"], bounded_only=True,
         bound="up to 4 outer iterations, every regauging period up to 4")
def _():
    E_, c = EN(), C()
    MPSM()
    two = c.choose(2) == 1
    n, rs = c.choose(4), [0, 2, 3, 4, -1][c.choose(5)]
    events = []
    e = E_.IDMRGengine.__new__(E_.IDMRGengine)
    N = sint("N")
    assume(N >= 1)
    m = mps_obj(N, VList.family(lambda q: sym("T[%s]" % q, dim("D"), dim("D"), dim("d")), N), 0, sym("mat0", dim("D"), dim("D")), cscalar("Zm"), obc=False)
    e._mps, e._mpo, e._filename, e._N = m, object(), "F", N
    e._hl = e._hr = rscalar("hl")
    opts = dict(NUC=sint("NUC"), Econv=rscalar("ec"), tol=rscalar("tol"), ncv=sint("ncv"), cp=c.data.setdefault("cp", [None, 1, 2][c.choose(3)] if n > 1 else None),
                solver=["AR", "LAN"][c.choose(2)] if n == 0 else "AR", Ndiag=sint("Ndiag"), nmaxlan=sint("nml"), landelta=rscalar("ld"), landeltaEta=rscalar("le"))
    if two: opts.update(numvecs=1, truncation=rscalar("tr"))

    real = {"one": E_.DMRGengine.__dict__["__simulate__"], "two": E_.DMRGengine.__dict__["__simulateTwoSite__"]}

    def sweep(kind):
        names = real[kind].__code__.co_varnames[1:real[kind].__code__.co_argcount]

        def run(self, *a, **k):
            C().ob("idmrg.sweep.call", self is e, "engine")
            k = dict(zip(names, a), **k)
            for key, v in opts.items():
                want, got = v, k.get("Nmax" if key == "NUC" else key)
                if key == "cp": continue
                C().ob("idmrg.sweep.argument", got is want or got == want and isinstance(want, (str, int)), "engine", "%s is not passed on" % key)
            events.append(kind)
            return rscalar("e%d" % len(events))
        return run

    def update(self, regauge=False):
        events.append(("update", bool(regauge)))
        return sint("D")
    saves = []
    with methods(E_.DMRGengine, __simulate__=sweep("one"), __simulateTwoSite__=sweep("two")), methods(E_.IDMRGengine, __update__=update), \
            methods(MPSM().MPS, save=lambda self, f: saves.append((f, len(events)))):
        if rs == 1: return
        call("simulate", e.simulateTwoSite if two else e.simulate, Nmax=n, regaugestep=rs, **opts)
    want = []
    for it in range(n + 1): want += ["two" if two else "one", ("update", rs > 0 and it > 0 and it % rs == 0)]
    c.ob("idmrg.alternation", events == want, "engine", "%s instead of %s" % (events, want))
    c.ob("idmrg.checkpoints", all(f == "F_dmrg_cp" and k % 2 == 0 for f, k in saves), "engine", "checkpoint between sweep and shift")


from . import vumps


@R.group("vumps.step", ["VUMPSengine.__init__", "VUMPSengine.__doStep__"])
def _(): vumps.step("vumps")


@R.group("vumps.simulate", ["VUMPSengine.simulate", "VUMPSengine.__simulate__"], bounded_only=True, bound="up to 12 iterations")
def _(): vumps.simulate("vumps.simulate")


@R.group("vumps.equation", ["(lemma) the solution of the projected equation has no component along the projection"])
def _(): vumps.lemma("vumps.equation")


@R.group("gradient.step", ["HomogeneousIMPSengine.__init__", "HomogeneousIMPSengine.__doGradStep__"])
def _(): vumps.gradient("gradient")
