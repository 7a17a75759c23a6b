"""Shared harness for TimeEvolutionEngine.__doTDVP__ : schedule obligations (C12) and environment obligations (C13)."""
from .base import *
from .callee import *

SOLVERS = ["LAN", "SEXPMV", "RK45", "Radau", "BDF", "LSODA", "RK23"]
POIS = "stale environment"


def EN(): return world().load("lib.mpslib.engines")


def ray(name, got, want):
    """got is a multiple of want"""
    g, w = A.toarr(got), A.toarr(want)
    if g.ndim != w.ndim: return C().ob(name, False, "tensor", "different number of legs")
    la, lb = "abcd"[:g.ndim], "efgh"[:g.ndim]
    ensure_eq(name, spec([g, w], [la, lb], la + lb), spec([w, g], [la, lb], la + lb))


def parallel(name, got, want):
    """got is a positive multiple of want"""
    g, w = A.toarr(got), A.toarr(want)
    ray(name, g, w)


class Stepper:
    """contract of MPS.__position__ for moves by a known number of bonds (C01; composed of single steps)"""
    def __init__(s, m, N): s.m, s.N = m, N

    def __call__(s, bond, schmidt_thresh=1e-16, D=None, r_thresh=1e-14):
        m = s.m
        if not (bond >= 0) or not (bond <= s.N): raise VCFail("position.pre", "bond outside the chain")
        d = pint(bond) - pint(m._position)
        if not d.is_const():
            if bond == m._position: return
            raise Unsupported("move by an unknown number of bonds")
        k = d.value()
        for _ in range(abs(k)):
            p = m._position
            if k > 0:
                q, r, Z = prepareTensor(spec([m._mat, m._tensors[p]], ["ab", "bcs"], "acs"), 1)
                m._tensors[p] = q
                m._position = p + 1
            else:
                q, r, Z = prepareTensor(spec([m._tensors[p - 1], m._mat], ["abs", "bc"], "acs"), -1)
                m._tensors[p - 1] = q
                m._position = p - 1
            m._mat, m._Z = r, A.toarr(m._Z) * Z


class Run:
    """ghost state of one run"""
    def __init__(s, e, N, dt, solver, sched, envs):
        s.e, s.m, s.N, s.dt, s.solver, s.sched, s.envs = e, e._mps, N, dt, solver, sched, envs
        s.log = []
        s.near = None
        s.truth = None           # (kind, bond or site, value): what the centre must be a multiple of

    def ob(s, which, f, *a):
        if which: f(*a)

    # expected environments at the moment of a call: overridden by the bounded variant
    def L(s, k): raise NotImplementedError
    def R(s, k): raise NotImplementedError

    def K(s, L_, W, R_, X, tau):
        """evolution of the tensor at the site given by the operator tensor"""
        n = s.site(W)
        m = s.m
        s.log.append(("K", n, tau))
        if s.envs:
            ensure_eq("tdvp.left-environment", L_, s.L(n))
            ensure_eq("tdvp.right-environment", R_, s.R(n + 1))
        if s.sched: ray("tdvp.centre-tensor", X, s.centre(n))
        ev = sym(C().fresh("EV"), *X.shape)
        s.truth = ("K", n, ev)
        return ev

    def Cm(s, L_, R_, mat, tau):
        n = s.bond
        m = s.m
        k = m._position
        s.log.append(("C", k, tau))
        if s.envs:
            ensure_eq("tdvp.matrix.left-environment", L_, s.L(k))
            ensure_eq("tdvp.matrix.right-environment", R_, s.R(k))
        if s.sched: ray("tdvp.centre-matrix", mat, mat if s.truth is None else mat)
        if s.sched and s.truth is not None and s.truth[0] == "K":
            q = s.truth[1]
            if k == q + 1: ray("tdvp.centre-matrix-from-tensor", spec([m._tensors[q], mat], ["abs", "bc"], "acs"), s.truth[2])
            elif k == q: ray("tdvp.centre-matrix-from-tensor", spec([mat, m._tensors[q]], ["ab", "bcs"], "acs"), s.truth[2])
            else: C().ob("tdvp.centre-matrix-from-tensor", False, "engine", "matrix away from the evolved tensor")
        elif s.sched: ray("tdvp.centre-matrix", mat, s.mat0)
        ev = sym(C().fresh("EM"), *mat.shape)
        s.truth = ("C", k, ev)
        return ev

    def centre(s, n):
        """tensor at site n of the current state in mixed form, from the last evolved object"""
        m = s.m
        if s.truth is None: return s.centre0(n)
        k, b, v = s.truth
        if k == "K":
            if n == b + 1:
                # centre moved from site b to n without evolving the bond
                return None
            if n == b: return v
            raise Unsupported("two tensor evolutions in a row")
        if n == b: return spec([v, s.near[1] if s.near else m._tensors[n]], ["ab", "bcs"], "acs")
        if n == b - 1: return spec([s.near[0] if s.near else m._tensors[n], v], ["abs", "bc"], "acs")
        raise Unsupported("tensor evolution away from the centre")

    def stubs(s):
        def kt(method):
            def f(L, mpo, R, mps, tau, *a, **k):
                s.pass_through(method, a, k)
                return s.K(L, mpo, R, mps, tau)
            return f

        def km(method):
            def f(L, R, mat, tau, *a, **k):
                s.pass_through(method, a, k)
                return s.Cm(L, R, mat, tau)
            return f
        d = {}
        for nm in ("Lan", "Sexpmv", "solve_ivp"): d["evolveTensor" + nm], d["evolveMatrix" + nm] = kt(nm), km(nm)
        d["prepareTensor"] = prepareTensor
        d.update(layers())
        return d

    def pass_through(s, method, a, k):
        want = {"LAN": "Lan", "SEXPMV": "Sexpmv"}.get(s.solver, "solve_ivp")
        if not s.sched: return
        C().ob("tdvp.solver", method == want, "engine", "solver %s runs evolve*%s" % (s.solver, method))
        if want == "solve_ivp":
            C().ob("tdvp.solver-arguments", k.get("method", a[0] if a else None) == s.solver, "engine", "method %s" % k.get("method"))
            C().ob("tdvp.tolerances", k.get("rtol", a[1] if len(a) > 1 else None) is s.rtol and k.get("atol", a[2] if len(a) > 2 else None) is s.atol, "engine")
        if want == "Lan": C().ob("tdvp.solver-arguments", k.get("krylov_dimension", a[0] if a else None) is s.krylov, "engine")


class SymRun(Run):
    """symbolic chain length: environments and tensors are families, see Inv classes"""
    def site(s, W):
        for p, w in list(s.e._mpo.sym["cache"].items()):
            if w is W: return SInt.mk(p)
        raise Unsupported("operator tensor of unknown site")

    bond = None
    def L(s, k): return s.envL(k)
    def R(s, k): return s.envR(k)
    def centre0(s, n):
        m = s.m
        return s.head_centre(n)


def right_iso(t, tag): iso3(t, False, tag); return t
def left_iso(t, tag): iso3(t, True, tag); return t


class World_:
    """opaque families: G (start of the step, right isometric), NT (after the forward sweep, left isometric), RT (after the
    backward sweep, right isometric), and the environments they generate"""
    def __init__(s, N, lb, rb, W):
        s.N, s.lb, s.rb, s.W = N, lb, rb, W

    def b(s, k):
        k = SInt.mk(pint(k))
        return bonddim("D", k)

    def b1(s, k):
        k = SInt.mk(pint(k))
        if k == 0: return s.b(0)
        return bonddim("D'", k)

    def b2(s, k):
        k = SInt.mk(pint(k))
        if k == s.N: return s.b(s.N)
        return bonddim("D''", k)

    def w(s, k): return bonddim("w", SInt.mk(pint(k)))
    def d(s, k): return bonddim("d", SInt.mk(pint(k)))
    def G(s, q): return right_iso(sym("G[%s]" % pint(q), s.b(q), s.b(q + 1), s.d(q)), "")
    def NT(s, q): return left_iso(sym("NT[%s]" % pint(q), s.b1(q), s.b1(q + 1), s.d(q)), "")
    def RT(s, q): return right_iso(sym("RT[%s]" % pint(q), s.b2(q), s.b2(q + 1), s.d(q)), "")

    def LE(s, k):
        k = SInt.mk(pint(k))
        if k == 0: return s.lb
        return sym("LE[%s]" % pint(k), s.b1(k), s.b1(k), s.w(k))

    def RE(s, k):
        k = SInt.mk(pint(k))
        if k == s.N: return s.rb
        return sym("RE[%s]" % pint(k), s.b(k), s.b(k), s.w(k))

    def RE2(s, k):
        k = SInt.mk(pint(k))
        if k == s.N: return s.rb
        return sym("RE2[%s]" % pint(k), s.b2(k), s.b2(k), s.w(k))


def rows(lst, fn, n):
    lst.sym = {"fn": lambda p: fn(SInt.mk(p)), "len": n, "over": [], "cache": {}}


class Outer:
    """invariant over the steps (also the invariant of the class between calls): centre at bond 0, L[0] the left boundary,
    R[k] for k < N the right environments of the current tensors; time and iteration count advance by the step"""
    fields = ("_mat", "_Z", "_position", "_t0", "_it")

    def __init__(s, run, w, n, disk, keep, t00, it0, absim): s.run, s.w, s.n, s.disk, s.keep, s.t00, s.it0, s.absim = run, w, n, disk, keep, t00, it0, absim
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def establish(s, fresh):
        """the state at the beginning of a step"""
        e, m, w = s.run.e, s.run.m, s.w
        rows(m._tensors, lambda q: w.G(q), w.N)
        rows(e._L, lambda k: w.lb if k == 0 else Poison(POIS), w.N + 1)
        rows(e._R, lambda k: w.RE(w.N - k) if k < w.N else Poison(POIS), w.N + 1)
        m._mat = s.run.mat0 = sym("matS", w.b(0), w.b(0))
        m._Z = cscalar(C().fresh("ZS"))
        m._position = 0
        s.run.truth = None
        s.run.envL = lambda k: w.LE(k)
        s.run.envR = lambda k: w.RE(k)
        s.run.phase = "start"
        del s.run.log[:]

    def check(s, i, locs, phase):
        c, e, m, w, run = C(), s.run.e, s.run.m, s.w, s.run
        if phase == "init":
            s.names = [v for v in s.assigned if v in locs and (isinstance(locs[v], str) or locs[v] is None)]
            s.start = {v: locs[v] for v in s.names}
            c.ob("tdvp.no-evolution-before", not run.log, "engine")
            return
        if run.sched:
            c.ob("tdvp.complete-step", run.phase == "backward", "engine", "sweeps done: %s" % run.phase)
            ensure_eq("tdvp.time", A.toarr(e._t0), A.toarr(s.t00) + s.absim * (s.index + 1))
            ensure("tdvp.iteration", e._it == s.it0 + s.index + 1)
            if not s.keep:
                if s.disk.saves: c.ob("tdvp.latest-checkpoint-only", s.disk.files == {s.disk.saves[-1] + ".pickle"}, "engine", "files %s" % s.disk.files)
                else: c.ob("tdvp.checkpoint-kept", s.disk.files == s.files0, "engine")
                for v in s.names:
                    x = locs[v]
                    c.ob("tdvp.checkpoint-name", (x == s.start[v] and not s.disk.files) or (x is not None and {x + ".pickle"} == s.disk.files), "engine", "%r, files %s" % (x, s.disk.files))
            c.ob("tdvp.files", all(f in s.disk.files for f in s.files0) or not s.keep, "engine", "a kept checkpoint was removed")
        ensure("tdvp.position", m._position == 0)
        if run.envs: s.consistent("tdvp.invariant")

    def consistent(s, name):
        """recurrence of the right environments at an arbitrary bond, and the canonical form at an arbitrary site"""
        e, m, w = s.run.e, s.run.m, s.w
        ensure_eq(name + ".left-boundary", e._L[0], w.lb)
        ensure_eq(name + ".right-boundary", e._R[0], w.rb)
        j = w.N - 1
        if C().choose(2):
            j = sint("jj")
            assume(j >= 1); assume(j < w.N - 1)
        if s.run.phase == "backward":
            T.add_rule("RE2 unfold", w.RE2(j).v, spec_addlayer(w.RE2(j + 1), w.RT(j), w.W[j], w.RT(j), -1).v)
        t = m._tensors[j]
        ensure_eq(name + ".right-environment", e._R[w.N - j], spec_addlayer(e._R[w.N - j - 1], t, w.W[j], t, -1))
        ensure_eq(name + ".right-isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        assumed = m._tensors[0]
        ensure_eq(name + ".right-isometry", spec([assumed, A.conj(assumed)], ["abs", "cbs"], "ac"), A.np_eye(assumed.shape[0]))

    def havoc(s, i, locs):
        c = C()
        s.index = i
        s.establish(True)
        s.run.e._t0 = A.toarr(s.t00) + s.absim * i
        s.run.e._it = s.it0 + i
        s.disk.saves = []
        old = c.choose(2) == 1
        s.disk.files = {"OLD.pickle"} if old else set()
        s.files0 = set(s.disk.files)
        return {v: ("OLD" if old else s.start[v]) for v in s.names}


class Forward:
    fields = ("_mat", "_Z", "_position")
    def __init__(s, run, w): s.run, s.w, s.special = run, w, (0, w.N - 1)
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        c, run, w = C(), s.run, s.w
        e, m = run.e, run.m
        if phase == "init":
            c.ob("tdvp.forward.first", run.phase == "start" and not run.log, "engine", "forward sweep after %s" % run.phase)
            ensure("tdvp.forward.start", m._position == 0)
            return
        n = s.index
        last = n == w.N - 1
        if run.sched:
            want = [("K", n, run.dt if last else run.dt / 2)] + ([] if last else [("C", n + 1, -run.dt / 2)])
            schedule("tdvp.forward", run.log, want)
        after(run, "tdvp.forward", n, last)
        ensure("tdvp.forward.position", m._position == n + 1)
        t = m._tensors[n]
        ensure_eq("tdvp.forward.isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
        if run.envs: ensure_eq("tdvp.forward.left-environment", e._L[n + 1], spec_addlayer(w.LE(n), t, w.W[n], t, 1))
        frame("tdvp.forward", m._tensors, {n: 1})
        frame("tdvp.forward.L", e._L, {n + 1: 1})
        frame("tdvp.forward.R", e._R, {})

    def havoc(s, i, locs):
        run, w = s.run, s.w
        e, m = run.e, run.m
        s.index = i
        rows(m._tensors, lambda q: w.NT(q) if q < i else w.G(q), w.N)
        rows(e._L, lambda k: w.LE(k) if k <= i else Poison(POIS), w.N + 1)
        rows(e._R, lambda k: w.RE(w.N - k) if k < w.N else Poison(POIS), w.N + 1)
        m._mat = run.mat0 = sym("matF", w.b1(i), w.b(i))
        m._Z = cscalar(C().fresh("ZF"))
        m._position = i
        run.truth = None
        run.head_centre = lambda n: spec([run.mat0, w.G(n)], ["ab", "bcs"], "acs")
        s0 = i

        def envL(k):
            if k <= s0: return w.LE(k)
            if k == s0 + 1: return spec_addlayer(w.LE(s0), m._tensors[s0], w.W[s0], m._tensors[s0], 1)
            raise Unsupported("environment beyond the current site")
        run.envL, run.envR = envL, lambda k: w.RE(k)
        del run.log[:]
        if getattr(s, "at_exit", False): run.phase = "forward"
        return {}


class Backward:
    fields = ("_mat", "_Z", "_position")
    def __init__(s, run, w): s.run, s.w, s.special = run, w, (w.N - 2, 0)
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        c, run, w = C(), s.run, s.w
        e, m = run.e, run.m
        if phase == "init":
            c.ob("tdvp.backward.after-forward", run.phase == "forward" and not run.log, "engine", "backward sweep after %s" % run.phase)
            ensure("tdvp.backward.start", m._position == w.N)
            return
        n = s.index
        if run.sched: schedule("tdvp.backward", run.log, [("C", n + 1, -run.dt / 2), ("K", n, run.dt / 2)])
        after(run, "tdvp.backward", n, True)
        ensure("tdvp.backward.position", m._position == n)
        t = m._tensors[n]
        ensure_eq("tdvp.backward.isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        u = m._tensors[n + 1]
        ensure_eq("tdvp.backward.isometry", spec([u, A.conj(u)], ["abs", "cbs"], "ac"), A.np_eye(u.shape[0]))
        if run.envs: ensure_eq("tdvp.backward.right-environment", e._R[w.N - n - 1], spec_addlayer(w.RE2(n + 2), u, w.W[n + 1], u, -1))
        frame("tdvp.backward", m._tensors, {n: 1, n + 1: 0} if not s.first else {n: 1, n + 1: 1})
        frame("tdvp.backward.R", e._R, {w.N - n - 1: 1})
        frame("tdvp.backward.L", e._L, {})

    def havoc(s, i, locs):
        run, w = s.run, s.w
        e, m = run.e, run.m
        s.index = i
        ex = getattr(s, "at_exit", False)
        s.first = False if ex else bool(i == w.N - 2)
        rows(e._L, lambda k: w.LE(k) if not (k == w.N) or not s.first else w.LE(k), w.N + 1)
        if s.first:
            rows(m._tensors, lambda q: w.NT(q), w.N)
            rows(e._R, lambda k: w.rb if k == 0 else Poison(POIS), w.N + 1)
            m._mat = run.mat0 = sym("matB", w.b1(w.N), w.b(w.N))
            m._position = w.N
        else:
            rows(m._tensors, lambda q: w.RT(q) if q > i else w.NT(q), w.N)
            rows(e._R, lambda k: w.RE2(w.N - k) if (k <= w.N - i - 2 if not ex else k <= w.N - 1) else Poison(POIS), w.N + 1)
            m._mat = run.mat0 = sym("matB", w.b1(i + 1), w.b2(i + 1))
            m._position = i + 1
        m._Z = cscalar(C().fresh("ZB"))
        mat0, first = run.mat0, s.first
        run.truth = None

        def envR(k):
            if k >= i + 2: return w.RE2(k)
            if k == i + 1: return spec_addlayer(w.RE2(i + 2), m._tensors[i + 1], w.W[i + 1], m._tensors[i + 1], -1)
            raise Unsupported("environment beyond the current site")
        run.envL, run.envR = (lambda k: w.LE(k)), envR

        def head_centre(n): raise Unsupported("tensor evolved before the matrix")
        run.head_centre = head_centre
        if first:
            # matrix at the bond N-1 after the move: T_(N-1).mat is unchanged
            run.first_tensor = spec([w.NT(w.N - 1), mat0], ["abs", "bc"], "acs")
        del run.log[:]
        if ex: run.phase = "backward"
        return {}


def after(run, name, n, tensor):
    """the object evolved last is what the state holds now"""
    if not run.sched: return
    m = run.m
    kind, k, v = run.truth if run.truth else (None, None, None)
    if kind is None:
        C().ob(name + ".evolved", False, "engine", "nothing was evolved")
        return
    if kind == "K":
        p = m._position
        if p == n + 1: got = spec([m._tensors[n], m._mat], ["abs", "bc"], "acs")
        else: got = spec([m._mat, m._tensors[n]], ["ab", "bcs"], "acs")
        ray(name + ".state-is-evolved-tensor", got, v)
    else: ray(name + ".state-is-evolved-matrix", m._mat, v)


def schedule(name, log, want):
    c = C()
    ok = len(log) == len(want) and all(a[0] == b[0] for a, b in zip(log, want))
    c.ob(name + ".schedule", ok, "engine", "evolutions %s, expected %s" % (log, want))
    if not ok: return
    for a, b in zip(log, want):
        ensure(name + ".schedule.place", a[1] == b[1])
        ensure_eq(name + ".schedule.step", A.toarr(a[2]), A.toarr(b[2]))


def frame(name, lst, allowed):
    for key, v in lst.sym["over"]:
        if isinstance(key, tuple): raise Unsupported("bulk write")
        ok = any(core.deq(key, pint(k)) for k in allowed)
        C().ob(name + ".frame", ok, "engine", "" if ok else "element %s is written" % key)


class FirstRun(SymRun):
    def Cm(s, L_, R_, mat, tau):
        ft = getattr(s, "first_tensor", None)
        if ft is not None and s.truth is None and s.phase == "forward":
            m = s.m
            k = m._position
            s.log.append(("C", k, tau))
            if s.envs:
                ensure_eq("tdvp.matrix.left-environment", L_, s.L(k))
                ensure_eq("tdvp.matrix.right-environment", R_, s.R(k))
            if s.sched: ray("tdvp.centre-matrix", spec([mat, m._tensors[k]], ["ab", "bcs"], "acs"), ft)
            ev = sym(C().fresh("EM"), *mat.shape)
            s.truth = ("C", k, ev)
            s.first_tensor = None
            return ev
        return Run.Cm(s, L_, R_, mat, tau)


class Disk:
    def __init__(s): s.files, s.saves = set(), []
    def module(s):
        d = s

        def remove(f):
            if f not in d.files: raise VCFail("checkpoint.remove", "removes a file that does not exist")
            d.files.discard(f)
        ex = lambda f: f in d.files
        return A.Namespace("os", path=A.Namespace("os.path", exists=ex, isfile=ex), remove=remove, unlink=remove)


def engine(N, tensors, mat, W, Lst, Rst):
    e = EN().TimeEvolutionEngine.__new__(EN().TimeEvolutionEngine)
    e._filename, e._N = "F", N
    m = mps_obj(N, tensors, 0, mat, cscalar("Zm"))
    m._d = VList([2])
    e._mps, e._mpo, e._L, e._R = m, W, Lst, Rst
    st = Stepper(m, N)
    m.__dict__["__position__"] = st
    m.__dict__["position"] = st
    return e


def prove_tdvp(sched, envs):
    EN(); mf = MF()
    c = C()
    N, n = sint("N"), sint("numsteps")
    assume(N >= 3); assume(n >= 1)
    dt = cscalar("dt")
    solver = SOLVERS[c.choose(7 if sched else 3)]
    k = c.choose(4) if sched else 0
    cp = None if k == 0 else sint("cp")
    if cp is not None: assume(cp >= 1)
    keep, verbose = k == 2, 2 if k == 3 else 0
    w = World_(N, None, None, None)
    w.lb, w.rb = sym("lb", w.b(0), w.b(0), w.w(0)), sym("rb", w.b(N), w.b(N), w.w(N))
    w.W = VList.family(lambda q: sym("W[%s]" % q, w.w(SInt.mk(q)), w.w(SInt.mk(q) + 1), w.d(SInt.mk(q)), w.d(SInt.mk(q))), N)
    tens, Lst, Rst = VList(), VList(), VList()
    e = engine(N, tens, None, w.W, Lst, Rst)
    rtol, atol, kry = rscalar("rtol"), rscalar("atol"), sint("ncv")
    run = FirstRun(e, N, dt, solver, sched, envs)
    run.rtol, run.atol, run.krylov = rtol, atol, kry
    disk = Disk()
    e._t0, e._it = rscalar("t00"), sint("it0")
    assume(e._it >= 0)
    t00, it0 = e._t0, e._it
    absim = A.toarr(A.np_abs(A.imag(dt)))
    outer, fw, bw = Outer(run, w, n, disk, keep, t00, it0, absim), Forward(run, w), Backward(run, w)
    outer.establish(False)

    def save(f):
        disk.saves.append(f)
        disk.files.add(f + ".pickle")
        c.ob("tdvp.checkpoint-after-whole-step", run.phase == "backward", "engine", "checkpoint in the middle of a step (%s)" % run.phase)
        ensure("tdvp.checkpoint-position", e._mps._position == 0)
    e.save = save

    def handler(rng, locs, lid):
        if rng.step == 1 and rng.lo == 0 and rng.hi is n: return outer
        if rng.step == 1 and rng.lo == 0 and bool(rng.hi == N): return fw
        if rng.step == -1 and bool(rng.lo == N - 2) and bool(rng.hi == -1): return bw
        raise Unsupported("loop over an unexpected range")
    c.data["loop_handler"] = handler
    with patched(mf, **run.stubs()):
        with patched(EN(), os=disk.module()):
            r = call("doTDVP", e.doTDVP, dt, n, krylov_dim=kry, cp=cp, keep_cp=keep, verbose=verbose, solver=solver, rtol=rtol, atol=atol)
    ensure("tdvp.final-position", e._mps._position == 0)
    if sched:
        ensure_eq("tdvp.returned-time", A.toarr(r), A.toarr(t00) + absim * n)
        ensure_eq("tdvp.final-time", A.toarr(e._t0), A.toarr(t00) + absim * n)
        ensure("tdvp.final-iteration", e._it == it0 + n)


# ---- concrete length: bounded stand-in (and the single-site chain) -------------------------------------------------
class ConcRun(Run):
    bond = None
    def site(s, W):
        for p, w in enumerate(list.__iter__(s.e._mpo)):
            if w is W: return p
        raise Unsupported("operator tensor of unknown site")

    def L(s, k):
        E_ = s.lb
        for j in range(k): E_ = spec_addlayer(E_, s.m._tensors[j], s.e._mpo[j], s.m._tensors[j], 1)
        return E_

    def R(s, k):
        E_ = s.rb
        for j in range(s.N - 1, k - 1, -1): E_ = spec_addlayer(E_, s.m._tensors[j], s.e._mpo[j], s.m._tensors[j], -1)
        return E_

    right0 = False
    def centre0(s, n): return spec([s.mat0, s.T0], ["ab", "bcs"], "acs") if not s.right0 else spec([s.T0, s.start_mat], ["abs", "bc"], "acs")

    def Cm(s, L_, R_, mat, tau):
        if s.truth is not None and s.truth[0] == "K" and s.truth[1] == s.N - 1 and s.m._position == s.N - 1 and s.N > 1:
            m = s.m
            k = m._position
            s.log.append(("C", k, tau))
            if s.envs:
                ensure_eq("tdvp.matrix.left-environment", L_, s.L(k))
                ensure_eq("tdvp.matrix.right-environment", R_, s.R(k))
            if s.sched: ray("tdvp.centre-matrix", spec([mat, m._tensors[k]], ["ab", "bcs"], "acs"), s.truth[2])
            ev = sym(C().fresh("EM"), *mat.shape)
            s.truth = ("C", k, ev)
        else: ev = Run.Cm(s, L_, R_, mat, tau)
        k = s.m._position
        ts = s.m._tensors
        s.near = (ts[k - 1] if k > 0 else None, ts[k] if k < s.N else None)
        return ev


class ConcOuter:
    """steps of a chain of concrete length: the same invariant, for a symbolic number of steps"""
    fields = ("_mat", "_Z", "_position", "_t0", "_it")
    def __init__(s, run, one, disk, keep, t00, it0, absim, ts, Rl, lb, n): s.run, s.one, s.disk, s.keep, s.t00, s.it0, s.absim, s.ts, s.Rl, s.lb, s.n = run, one, disk, keep, t00, it0, absim, ts, Rl, lb, n
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        run, e, m = s.run, s.run.e, s.run.m
        if phase == "init":
            C().ob("tdvp.no-evolution-before", not run.log, "engine")
            s.names = [v for v in s.assigned if v in locs and (isinstance(locs[v], str) or locs[v] is None)]
            s.start = {v: locs[v] for v in s.names}
            return
        if run.sched:
            schedule("tdvp", run.log, s.one)
            after(run, "tdvp", 0, True)
            ensure_eq("tdvp.time", A.toarr(e._t0), A.toarr(s.t00) + s.absim * (s.index + 1))
            ensure("tdvp.iteration", e._it == s.it0 + s.index + 1)
        if run.N == 1:      # a single site: the centre may be on either side of it
            C().ob("tdvp.position", m._position in (0, 1), "engine")
            t = m._tensors[0]
            iso = spec([t, A.conj(t)], ["abs", "acs"], "bc") if m._position else spec([t, A.conj(t)], ["abs", "cbs"], "ac")
            ensure_eq("tdvp.invariant.isometry", iso, A.np_eye(t.shape[1 if m._position else 0]))
            return
        ensure("tdvp.position", m._position == 0)
        for k, t in enumerate(list.__iter__(m._tensors)): ensure_eq("tdvp.invariant.right-isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        if run.envs:
            for k in range(1, run.N): ensure_eq("tdvp.invariant.right-environment", e._R[run.N - k], run.R(k))
            ensure_eq("tdvp.invariant.left-boundary", e._L[0], s.lb)

    def havoc(s, i, locs):
        run, e, m = s.run, s.run.e, s.run.m
        s.index = i
        for lst, vals in ((m._tensors, s.ts), (e._L, [s.lb] + [Poison(POIS)] * run.N), (e._R, s.Rl + [Poison(POIS)])):
            for k, v in enumerate(vals): list.__setitem__(lst, k, v)
        m._mat, m._Z, m._position = run.mat0, cscalar(C().fresh("ZS")), 0
        run.right0 = run.N == 1 and C().choose(2) == 1
        if run.right0:
            run.T0 = left_iso(sym("G1", s.ts[0].shape[0], dim("K"), s.ts[0].shape[2]), "")
            list.__setitem__(m._tensors, 0, run.T0)
            m._mat = sym("matS1", run.T0.shape[1], s.ts[0].shape[1])
            run.start_mat, m._position = m._mat, 1
        run.truth = run.near = None
        del run.log[:]
        e._t0 = A.toarr(s.t00) + s.absim * i
        e._it = s.it0 + i
        s.disk.saves = []
        s.disk.files = set()
        return dict(s.start)


def bounded_tdvp(N, steps, solver, cp, keep, it0, sched, envs, verbose=0):
    EN(); mf = MF()
    c = C()
    dt = cscalar("dt")
    D = [dim("D%d" % k) for k in range(N + 1)]
    w = [dim("w%d" % k) for k in range(N + 1)]
    lb, rb = sym("lb", D[0], D[0], w[0]), sym("rb", D[N], D[N], w[N])
    W = VList([sym("W%d" % k, w[k], w[k + 1], dim("d%d" % k), dim("d%d" % k)) for k in range(N)])
    ts = [right_iso(sym("G%d" % k, D[k], D[k + 1], dim("d%d" % k)), "") for k in range(N)]
    mat0 = sym("matS", D[0], D[0])
    Rl = [rb]
    for k in range(N - 1, 0, -1): Rl.append(spec_addlayer(Rl[-1], ts[k], W[k], ts[k], -1))
    e = engine(N, VList(ts), mat0, W, VList([lb] + [Poison(POIS)] * N), VList(Rl + [Poison(POIS)]))
    run = ConcRun(e, N, dt, solver, sched, envs)
    run.lb, run.rb, run.mat0, run.T0 = lb, rb, mat0, ts[0]
    run.rtol, run.atol, run.krylov = rscalar("rtol"), rscalar("atol"), sint("ncv")
    disk = Disk()
    e._t0, e._it = rscalar("t00"), it0
    t00 = e._t0
    absim = A.toarr(A.np_abs(A.imag(dt)))
    one = []
    if isinstance(steps, SInt): c.data["loop_handler"] = lambda rng, locs, lid: ConcOuter(run, one, disk, keep, t00, it0, absim, ts, Rl, lb, steps) if rng.hi is steps else None
    for k in range(N):
        one.append(("K", k, dt if k == N - 1 else dt / 2))
        if k < N - 1: one.append(("C", k + 1, -dt / 2))
    for k in range(N - 2, -1, -1): one += [("C", k + 1, -dt / 2), ("K", k, dt / 2)]

    def save(f):
        disk.saves.append(f)
        disk.files.add(f + ".pickle")
        c.ob("tdvp.checkpoint-after-whole-step", len(run.log) % len(one) == 0 and len(run.log) > 0, "engine", "after %d evolutions" % len(run.log))
    e.save = save
    with patched(mf, **run.stubs()):
        with patched(EN(), os=disk.module()):
            r = call("doTDVP", e.doTDVP, dt, steps, krylov_dim=run.krylov, cp=cp, keep_cp=keep, verbose=verbose, solver=solver, rtol=run.rtol, atol=run.atol)
    if isinstance(steps, SInt):
        ensure_eq("tdvp.returned-time", A.toarr(r), A.toarr(t00) + absim * steps)
        ensure("tdvp.final-position", e._mps._position == 0)
        return
    if sched:
        schedule("tdvp", run.log, one * steps)
        if steps: after(run, "tdvp", 0, True)
        ensure_eq("tdvp.returned-time", A.toarr(r), A.toarr(t00) + absim * steps)
        ensure("tdvp.final-iteration", e._it == it0 + steps)
        if not keep: c.ob("tdvp.latest-checkpoint-only", len(disk.files) <= 1 and (not disk.saves or disk.files == {disk.saves[-1] + ".pickle"}), "engine", "files %s" % disk.files)
    ensure("tdvp.final-position", e._mps._position == 0)
    if envs and steps and N > 1:
        for k in range(1, N): ensure_eq("tdvp.final-right-environment", e._R[N - k], run.R(k))
        ensure_eq("tdvp.final-left-boundary", e._L[0], lb)
