"""C05: overlaps are the inner product of the represented states."""
from .base import *
from .callee import *
R = Registry()


def env_fn(name, b1, b2):
    def env(k): return sym("%s[%s]" % (name, pint(k)), b1(k), b2(k), 1)
    return env


def defs(env, t1, t2):
    """definition of the recursive contraction: E[1] from site 0, E[k+1] from E[k] and site k"""
    def unfold(k):
        T.add_rule("def E", spec_addE(env(k), t1[k], t2[k], 1).v, env(k + 1).v)
    return unfold


def base(env, t1, t2):
    e1 = env(1)
    l = spec([t1[0], A.conj(t2[0])], ["xas", "xbs"], "ab")
    T.add_rule("def E[1]", A.reshape(l, tuple(A.shape(l)) + (1,)).v, e1.v)


@R.group("overlap.lists", ["mpsfunctions.overlap"])
def _():
    mf = MF()
    mix("A", "B", E="AB")
    N = sint("N")
    assume(N >= 1)
    t1, b1 = obc_family("A", N, "a")
    t2, b2 = obc_family("B", N, "b")
    env = env_fn("E", b1, b2)
    base(env, t1, t2)
    inv = EnvInv("overlap", env, defs(env, t1, t2), 1)
    C().data["loop_handler"] = lambda rng, locs, lid: inv
    with patched(mf, **layers()):
        got = call("overlap", mf.overlap, t1, t2)
    ensure_eq("overlap.lists", got, A.reshape(env(1 if N == 1 else N), ()))


def opaque_mps(name, N, cx=True):
    M = MPSM()
    fam, b = obc_family(name, N, name + "D")
    p = sint("pos" + name)
    assume(p >= 0); assume(p <= N)
    m = mps_obj(N, VList.family(lambda q: fam[SInt.mk(q)], N), p, sym(name + "mat", b(p), b(p)), cscalar("Z" + name))
    m._glist = m._tensors
    attach_position(m, name, N)
    m._gauge = (name, fam, m._mat, m._Z, b)
    return m, p


@R.group("overlap.states", ["mpsfunctions.overlap", "MPS.dot", "MPS.__dot__"])
def _():
    mf = MF()
    c = C()
    how = c.choose(4)
    if how == 3:
        c.data["kinds"] = {"A": True, "B": False, "Amat": True, "Bmat": False} if c.choose(2) else {"B": True, "A": False, "Bmat": True, "Amat": False}
        how = 0
    N = sint("N")
    assume(N >= 1)
    m1, p1 = opaque_mps("A", N)
    m2, p2 = opaque_mps("B", N)
    # the states are measured in the gauge they have when the contraction starts
    seen = {}

    class Inv(EnvInv):
        def check(s, i, locs, phase):
            if phase == "init" and not seen: setup()
            EnvInv.check(s, i, locs, phase)

    def setup():
        g1, g2 = m1._gauge, m2._gauge
        seen.update(g1=g1, g2=g2)
        env = env_fn("E", g1[4], g2[4])
        base(env, g1[1], g2[1])
        inv.env, inv.unfold = env, defs(env, g1[1], g2[1])
        seen["env"] = env
        for m, nm in ((m1, "first"), (m2, "second")):
            p = m._position
            ensure("overlap.states.%s-centre-at-boundary" % nm, (p == 0) | (p == N) if isinstance(p == 0, core.SBool) or isinstance(p == N, core.SBool) else bool(p == 0 or p == N))
    inv = Inv("overlap.states", None, None, 1)
    c.data["loop_handler"] = lambda rng, locs, lid: inv
    same = c.choose(2) if "kinds" not in c.data else 0
    if same: m2, p2 = m1, p1
    with patched(mf, **layers()):
        if N == 1 and not seen: setup_late = True
        f = [lambda: mf.overlap(m1, m2), lambda: m1.dot(m2), lambda: m1.__dot__(m2)][how]
        if N == 1:
            # no loop iteration: record the gauge at the first tensordot
            orig = mf.ncon.ncon
            def rec(*a, **k):
                if not seen: setup()
                return orig(*a, **k)
            ns = type("ns", (), {"ncon": staticmethod(rec)})
            with patched(mf, ncon=ns): got = call("overlap", f)
        else: got = call("overlap", f)
    if not seen: raise Unsupported("the contraction of the two states was not found")
    g1, g2 = seen["g1"], seen["g2"]
    want = spec([seen["env"](1 if N == 1 else N), g1[2], A.conj(g2[2])], ["abm", "xx", "yy"], "abm")
    want = A.reshape(want, ()) * g1[3] * A.conj(g2[3])
    ensure_eq("overlap.states.value", got, want)
    ensure("overlap.states.first-position-restored", m1._position == p1)
    ensure("overlap.states.second-position-restored", m2._position == p2)
    for nm, m in (("first", m1), ("second", m2)):
        ok = m._tensors is m._glist and m._mat is m._gauge[2] and m._Z is m._gauge[3]
        C().ob("overlap.states.%s-unchanged" % nm, ok, "engine", "fields of the operand were changed other than by moving its centre")
        C().ob("overlap.states.%s-tensors-unchanged" % nm, not m._tensors.sym["over"] and all(t.version == 0 for t in m._gauge[1].sym["cache"].values()), "engine")


@R.fallback("overlap.states", "N<=3, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "B", Amat="A", Bmat="B")
    c = C()
    N = 1 + c.choose(3)
    p1, p2 = c.choose(N + 1), c.choose(N + 1)
    m1, t1 = concrete_mps(N, p1, "A")
    m2, t2 = concrete_mps(N, p2, "B")
    a1, a2 = amplitudes(m1), amplitudes(m2)
    with patched(mf, prepareTensor=prepareTensor, prepareTruncate=prepareTruncate):
        got = call("overlap", mf.overlap, m1, m2)
    l = "abcdef"[:N]
    ensure_eq("overlap.bounded.value", got, spec([a1, A.conj(a2)], [l, l], ""))
    ensure("overlap.bounded.position", m1._position == p1 and m2._position == p2)
    ensure_eq("overlap.bounded.first-unchanged", amplitudes(m1), a1)
    ensure_eq("overlap.bounded.second-unchanged", amplitudes(m2), a2)


@R.fallback("overlap.lists", "N<=4, symbolic dimensions and entries")
def _():
    mf = MF()
    mix("A", "B")
    N = 1 + C().choose(4)
    t1, t2 = chain("A", N, d="d"), chain("B", N, d="d")
    a1, a2 = dense(t1), dense(t2)
    got = call("overlap", mf.overlap, t1, t2)
    l = "abcdef"[:N]
    ensure_eq("overlap.lists.bounded", got, spec([a1, A.conj(a2)], [l, l], ""))
    ensure_frame("overlap.lists.frame", *list(t1), *list(t2))


@R.group("overlap.refusals", ["mpsfunctions.overlap"])
def _():
    mf = MF()
    w = C().choose(5)
    t1, t2 = chain("A", 3, d="d"), chain("B", 3, d="d")
    if w == 0: t2 = chain("B", 2, d="d")
    D = dim("X")
    assume(D >= 2)
    def wide(t, left): return sym("W", D, t.shape[1], t.shape[2]) if left else sym("W", t.shape[0], D, t.shape[2])
    if w == 1: t1[0] = wide(t1[0], True)
    if w == 2: t1[2] = wide(t1[2], False)
    if w == 3: t2[0] = wide(t2[0], True)
    if w == 4: t2[2] = wide(t2[2], False)
    ensure_raises("overlap.refusal", lambda: mf.overlap(t1, t2), (ValueError, AssertionError))
