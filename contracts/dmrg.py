"""Harness for DMRGengine sweeps: environments handed to the solvers, optimised tensors kept, normalised canonical result."""
from .base import *
from .callee import *
from .tdvp import EN, ray, Stepper, rows, frame, left_iso, right_iso, POIS

SOLV = {"AR": "eigsh", "LAN": "lanczos", "LOBPCG": "lobpcg"}


class World_:
    """opaque families of a sweep: G right isometric (right of the centre), NT left isometric (left of it), their environments"""
    def __init__(s, N):
        s.N = N
        s.lb, s.rb = sym("lb", s.b("D", 0), s.b("D", 0), s.w(0)), sym("rb", s.b("D", N), s.b("D", N), s.w(N))
        s.W = VList.family(lambda q: sym("W[%s]" % q, s.w(SInt.mk(q)), s.w(SInt.mk(q) + 1), s.d(SInt.mk(q)), s.d(SInt.mk(q))), N)
        s.ghost = {}

    def b(s, f, k):
        k = SInt.mk(pint(k))
        if k == 0: return bonddim("D", 0)
        if k == s.N: return bonddim("D", s.N)
        return bonddim(f, k)

    def w(s, k): return bonddim("w", SInt.mk(pint(k)))
    def d(s, k): return bonddim("d", SInt.mk(pint(k)))
    def G(s, q, f="D"): return right_iso(sym("G%s[%s]" % (f, pint(q)), s.b(f, q), s.b(f, q + 1), s.d(q)), "")
    def NT(s, q, f="D'"): return left_iso(sym("NT%s[%s]" % (f, pint(q)), s.b(f, q), s.b(f, q + 1), s.d(q)), "")

    def LE(s, k, f="D'"):
        k = SInt.mk(pint(k))
        if k == 0: return s.lb
        return sym("LE%s[%s]" % (f, pint(k)), s.b(f, k), s.b(f, k), s.w(k))

    def RE(s, k, f="D"):
        k = SInt.mk(pint(k))
        if k == s.N: return s.rb
        return sym("RE%s[%s]" % (f, pint(k)), s.b(f, k), s.b(f, k), s.w(k))


class Run:
    def __init__(s, e, w, solver):
        s.e, s.m, s.w, s.N, s.solver = e, e._mps, w, e._N, solver
        s.log, s.phase, s.last = [], "start", None
        s.expect = None       # (site, state before) for the start vector

    def site(s, W):
        for p, x in list(s.e._mpo.sym["cache"].items()):
            if x is W: return SInt.mk(p)
        raise Unsupported("operator tensor of unknown site")

    def stubs(s):
        def mk(nm):
            def f(L, mpo, R, mps0, *a, **k):
                C().ob("dmrg.solver", SOLV[s.solver] == nm, "engine", "solver %s runs %s" % (s.solver, nm))
                return s.solve(L, mpo, R, mps0)
            return f
        d = {nm: mk(nm) for nm in SOLV.values()}
        d["prepareTensor"] = prepareTensor
        d.update(layers())
        return d

    def solve(s, L, mpo, R, x):
        n = s.site(mpo)
        ensure_eq("dmrg.left-environment", L, s.envL(n))
        ensure_eq("dmrg.right-environment", R, s.envR(n + 1))
        s.start_vector(n, x)
        en, opt = rscalar(C().fresh("E")), sym(C().fresh("OPT"), *x.shape)
        T.add_rule("|opt|=1", T.einsum([opt.v, T.conj(opt.v)], [list("abs"), list("abs")], []), T.scalar(Poly.const(1)))
        s.log.append(n)
        s.last = (en, opt, n)
        return en, opt

    def start_vector(s, n, x): raise NotImplementedError


def eye_mat(m, k, D):
    """normalised identity left by __tensor__(clear=True)"""
    I = A.np_eye(D)
    return I / A.norm(I)


class SymRun(Run):
    def start_vector(s, n, x):
        """the vector handed to the solver is the centre of the current state"""
        m, h = s.m, s.head
        if h is None: return
        kind, i, mat0, X = h
        w = s.w
        if kind == "S": ray("dmrg.start-vector", spec([x, m._tensors[1]], ["abs", "bct"], "asct"), spec([w.NT(0), X, mat0], ["abs", "bct", "cd"], "asdt"))
        if kind == "S0": ray("dmrg.start-vector", x, spec([mat0, X], ["ab", "bcs"], "acs"))
        if kind == "F": ray("dmrg.start-vector", spec([m._tensors[i - 1], x], ["abs", "bct"], "asct"), spec([mat0, X, w.G(i)], ["ab", "bcs", "cdt"], "asdt"))
        if kind == "L":      # last site: moved over two bonds
            ray("dmrg.start-vector", spec([m._tensors[i - 1], x], ["abs", "bct"], "asct"), spec([mat0, X, w.G(i)], ["ab", "bcs", "cdt"], "asdt"))
        if kind == "B": ray("dmrg.start-vector", spec([x, m._tensors[i + 1]], ["abs", "bct"], "asct"), spec([w.NT(i), X, mat0], ["abs", "bct", "cd"], "asdt"))


class Head:
    """state at the head of a sweep (while loop) / between calls"""
    def __init__(s, run): s.run = run

    def set(s, first):
        run, w, e, m = s.run, s.run.w, s.run.e, s.run.m
        N = w.N
        run.first, run.head = first, None
        if first:
            rows(m._tensors, lambda q: w.G(q), N)
            rows(e._R, lambda k: w.RE(N - k), N + 1)
            m._mat, m._position = sym("mat0", w.b("D", 0), w.b("D", 0)), 0
            run.head = ("S0", 0, m._mat, w.G(0))
        else:
            run.X1 = sym("X1", w.b("D'", 1), w.b("D", 2), w.d(1))
            T.add_rule("|opt|=1", T.einsum([run.X1.v, T.conj(run.X1.v)], [list("abs"), list("abs")], []), T.scalar(Poly.const(1)))
            def ten(q):
                if q == 0: return w.NT(0)
                if q == 1: return run.X1
                return w.G(q)
            rows(m._tensors, ten, N)
            rows(e._R, lambda k: w.RE(N - k) if k <= N - 2 else Poison(POIS), N + 1)
            m._position = 2
            m._mat = eye_mat(m, 2, w.b("D", 2))
            run.head = ("S", 0, m._mat, run.X1)
        rows(e._L, lambda k: w.lb if k == 0 else Poison(POIS), N + 1)
        m._Z = cscalar(C().fresh("ZH"))
        run.envL = lambda k: w.LE(k)
        run.envR = lambda k: w.RE(k)
        run.phase = "start"
        del run.log[:]


class While:
    fields = ("_mat", "_Z", "_position", "_it")
    def __init__(s, run): s.run = run
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, locs, phase):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        if phase == "init":
            C().ob("dmrg.no-optimisation-before", not run.log and run.phase == "start", "engine")
            ensure("dmrg.head.position", m._position == 0)
            s.booleans = [v for v in s.assigned if isinstance(locs.get(v), bool)]
            return
        C().ob("dmrg.complete-sweep", run.phase == "backward", "engine", "sweeps done: %s" % run.phase)
        ensure("dmrg.head.position", m._position == 2)
        s.energies(locs)
        ensure("dmrg.iterations", e._it >= 2)

    def energies(s, locs):
        en = s.run.last[0]
        hit = [v for v in s.assigned if locs.get(v) is en]
        C().ob("dmrg.energy-kept", bool(hit), "engine", "the energy of the last optimisation is dropped")
        for v in s.assigned:
            if v in energy_names(True): C().ob("dmrg.energy-kept." + v, locs.get(v) is en, "engine", "%s does not hold the energy of the last optimisation" % v)
        if not hasattr(s.run, "ekeep"): s.run.ekeep = set(s.assigned)

    def havoc(s, locs):
        run = s.run
        c = C()
        first = c.choose(2) == 0
        Head(run).set(first)
        r = {}
        for v in s.booleans: r[v] = bool(c.choose(2)) if not first else locs[v]
        for v in s.assigned:
            x = locs.get(v)
            if v in r or v in ("n", "opt"): continue
            if isinstance(x, float) or isinstance(x, Arr): r[v] = rscalar(c.fresh(v)) if not first else x
        it = sint("itw")
        assume(it >= (1 if first else 2))
        if first: assume(it == 1)
        run.e._it = 1 if first else it
        if not first:
            en = rscalar("Elast")
            run.last = (en, run.X1, 1)
            for v in s.assigned:
                if v in energy_names(True): r[v] = en
        return r



import functools


@functools.lru_cache(None)
def energy_names(copies):
    """local variables that receive the energy of an optimisation (found in the source; the invariants below establish that they hold it)"""
    import ast, os
    from engine.loader import REPO
    tree = ast.parse(open(os.path.join(REPO, "lib/mpslib/engines.py")).read())
    fns = [f for c in tree.body if isinstance(c, ast.ClassDef) and c.name == "DMRGengine" for f in c.body if isinstance(f, ast.FunctionDef)]
    names, more = set(), set()
    for f in fns:
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 2 and isinstance(n.targets[0].elts[0], ast.Name):
                g = n.value.func
                nm = g.attr if isinstance(g, ast.Attribute) else getattr(g, "id", "")
                if nm in ("optimize", "eigsh", "lanczos", "lobpcg"): names.add(n.targets[0].elts[0].id)
        if copies:
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names: more |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return names | more


class Forward:
    fields = ("_mat", "_Z", "_position")
    def __init__(s, run): s.run, s.special = run, (0, 1)
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        if phase == "init":
            C().ob("dmrg.forward.first", run.phase == "start" and not run.log, "engine", "forward sweep after %s" % run.phase)
            return
        n = s.index
        C().ob("dmrg.forward.once", len(run.log) == 1, "engine", "%d optimisations at a site" % len(run.log))
        ensure("dmrg.forward.site", run.log[0] == n)
        ensure("dmrg.forward.position", m._position == n)
        ensure_eq("dmrg.forward.optimised", m._tensors[n], run.last[1])
        D = run.last[1].shape[0]
        ensure_eq("dmrg.forward.centre", m._mat, eye_mat(m, n, D))
        allowed = {n: 1}
        if not (n == 0):
            t = m._tensors[n - 1]
            ensure_eq("dmrg.forward.isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
            ensure_eq("dmrg.forward.L", e._L[n], spec_addlayer(w.LE(n - 1), t, w.W[n - 1], t, 1))
            allowed[n - 1] = 1
            frame("dmrg.forward.L", e._L, {n: 1})
            frame("dmrg.forward.R", e._R, {})
        elif not run.first:
            t = m._tensors[1]
            ensure_eq("dmrg.forward.right-isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
            ensure_eq("dmrg.forward.R", e._R[w.N - 1], spec_addlayer(w.RE(2), t, w.W[1], t, -1))
            allowed[1] = 1
            frame("dmrg.forward.L", e._L, {})
            frame("dmrg.forward.R", e._R, {w.N - 1: 1, w.N: 1})
        else:
            frame("dmrg.forward.L", e._L, {})
            frame("dmrg.forward.R", e._R, {})
        if n == 0: ensure_eq("dmrg.forward.L", e._L[0], w.lb)
        frame("dmrg.forward", m._tensors, allowed)

    def havoc(s, i, locs):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        s.index = i
        ex = getattr(s, "at_exit", False)
        del run.log[:]
        if not ex and not isinstance(i, SInt) and i == 0:      # i == 0: the state at the head of the sweep is unchanged
            Head(run).set(run.first)
            if not run.first:
                run.envR = lambda k: spec_addlayer(w.RE(2), m._tensors[1], w.W[1], m._tensors[1], -1) if k == 1 else w.RE(k)
            run.envL = lambda k: w.LE(k)
            return {}
        X = run.X = sym("X", w.b("D'", i - 1), w.b("D", i), w.d(i - 1))
        T.add_rule("|opt|=1", T.einsum([X.v, T.conj(X.v)], [list("abs"), list("abs")], []), T.scalar(Poly.const(1)))

        def ten(q):
            if q == i - 1: return X
            return w.NT(q) if q < i - 1 else w.G(q)
        rows(m._tensors, ten, w.N)
        rows(e._L, lambda k: w.LE(k) if k <= i - 1 else Poison(POIS), w.N + 1)
        rows(e._R, lambda k: w.RE(w.N - k) if k <= w.N - i else Poison(POIS), w.N + 1)
        m._position = i - 1
        m._mat = eye_mat(m, i - 1, w.b("D'", i - 1))
        m._Z = cscalar(C().fresh("ZF"))
        s0 = i
        run.head = ("F", i, m._mat, X)

        def envL(k):
            if k <= s0 - 1: return w.LE(k)
            if k == s0: return spec_addlayer(w.LE(s0 - 1), m._tensors[s0 - 1], w.W[s0 - 1], m._tensors[s0 - 1], 1)
            raise Unsupported("environment beyond the current site")
        run.envL, run.envR = envL, lambda k: w.RE(k)
        if ex: run.phase = "forward"
        run.last = (rscalar(C().fresh("E")), X, i - 1)
        return {}


class Backward:
    fields = ("_mat", "_Z", "_position")
    def __init__(s, run): s.run, s.special = run, (run.N - 1, run.N - 2)
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        N = w.N
        if phase == "init":
            C().ob("dmrg.backward.after-forward", run.phase == "forward" and not run.log, "engine", "backward sweep after %s" % run.phase)
            ensure("dmrg.backward.start", m._position == N - 2)
            return
        n = s.index
        for v in s.assigned:
            if v in energy_names(False): C().ob("dmrg.energy-of-the-site", locs.get(v) is run.last[0], "engine", "%s does not hold the energy of this optimisation" % v)
        C().ob("dmrg.backward.once", len(run.log) == 1, "engine", "%d optimisations at a site" % len(run.log))
        ensure("dmrg.backward.site", run.log[0] == n)
        ensure("dmrg.backward.position", m._position == n + 1)
        ensure_eq("dmrg.backward.optimised", m._tensors[n], run.last[1])
        ensure_eq("dmrg.backward.centre", m._mat, eye_mat(m, n, run.last[1].shape[1]))
        if n == N - 1:
            t = m._tensors[n - 1]
            ensure_eq("dmrg.backward.isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
            ensure_eq("dmrg.backward.L", e._L[N - 1], spec_addlayer(w.LE(N - 2), t, w.W[N - 2], t, 1))
            frame("dmrg.backward", m._tensors, {n: 1, n - 1: 1})
            frame("dmrg.backward.L", e._L, {N - 1: 1, N: 1})
            frame("dmrg.backward.R", e._R, {})
            ensure_eq("dmrg.backward.R", e._R[0], w.rb)
        else:
            t = m._tensors[n + 1]
            ensure_eq("dmrg.backward.isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
            ensure_eq("dmrg.backward.R", e._R[N - n - 1], spec_addlayer(w.RE(n + 2, "D''"), t, w.W[n + 1], t, -1))
            frame("dmrg.backward", m._tensors, {n: 1, n + 1: 1})
            frame("dmrg.backward.R", e._R, {N - n - 1: 1})
            frame("dmrg.backward.L", e._L, {})

    def havoc(s, i, locs):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        N = w.N
        s.index = i
        ex = getattr(s, "at_exit", False)
        del run.log[:]
        first = not ex and bool(i == N - 1)
        if first:      # unchanged state after the forward sweep
            X = run.X = sym("X", w.b("D'", N - 2), w.b("D", N - 1), w.d(N - 2))

            def ten(q):
                if q == N - 2: return X
                return w.NT(q) if q < N - 2 else w.G(q)
            rows(m._tensors, ten, N)
            rows(e._L, lambda k: w.LE(k) if k <= N - 2 else Poison(POIS), N + 1)
            rows(e._R, lambda k: w.RE(N - k) if k <= 1 else Poison(POIS), N + 1)
            m._position = N - 2
            m._mat = eye_mat(m, 0, w.b("D'", N - 2))
            run.head = ("L", N - 1, m._mat, X)

            def envL(k):
                if k == N - 1: return spec_addlayer(w.LE(N - 2), m._tensors[N - 2], w.W[N - 2], m._tensors[N - 2], 1)
                raise Unsupported("environment of another site")
            run.envL, run.envR = envL, lambda k: w.RE(k)
        else:
            X = run.X = sym("X", w.b("D'", i + 1), w.b("D''", i + 2), w.d(i + 1))
            T.add_rule("|opt|=1", T.einsum([X.v, T.conj(X.v)], [list("abs"), list("abs")], []), T.scalar(Poly.const(1)))

            def ten(q):
                if q == i + 1: return X
                return w.NT(q) if q <= i else w.G(q, "D''")
            rows(m._tensors, ten, N)
            rows(e._L, lambda k: w.LE(k) if k <= i + 1 else Poison(POIS), N + 1)
            rows(e._R, lambda k: w.RE(N - k, "D''") if k <= N - i - 2 else Poison(POIS), N + 1)
            m._position = i + 2
            m._mat = eye_mat(m, 0, w.b("D''", i + 2))
            s0 = i
            run.head = ("B", i, m._mat, X)

            def envR(k):
                if k >= s0 + 2: return w.RE(k, "D''")
                if k == s0 + 1: return spec_addlayer(w.RE(s0 + 2, "D''"), m._tensors[s0 + 1], w.W[s0 + 1], m._tensors[s0 + 1], -1)
                raise Unsupported("environment beyond the current site")
            run.envL, run.envR = (lambda k: w.LE(k)), envR
        m._Z = cscalar(C().fresh("ZB"))
        if ex:
            run.phase = "backward"
            run.last = (rscalar(C().fresh("E")), X, 1)
            return {v: run.last[0] for v in s.assigned if v in energy_names(False)}
        return {}


def engine(N, w, m):
    e = EN().DMRGengine.__new__(EN().DMRGengine)
    e._filename, e._N, e._mps, e._mpo = "F", N, m, w.W
    e._L, e._R, e._lb, e._rb = VList(), VList(), w.lb, w.rb
    st = Stepper(m, N)
    m.__dict__["__position__"] = m.__dict__["position"] = st
    return e


def prove_simulate():
    EN(); mf = MF()
    c = C()
    N = sint("N")
    assume(N >= 5)
    w = World_(N)
    m = mps_obj(N, VList(), 0, None, cscalar("Zm"))
    e = engine(N, w, m)
    solver = ["AR", "LAN", "LOBPCG"][c.choose(3)]
    verbose = 1 if solver == "LAN" else 0
    cp = [None, sint("cp")][c.choose(2)] if solver == "AR" else None
    if cp is not None: assume(cp >= 1)
    Nmax = sint("Nmax")
    assume(Nmax >= 1)
    run = SymRun(e, w, solver)
    Head(run).set(True)
    wh = While(run)
    m.__dict__["save"] = lambda f: None
    c.data["while_handler"] = lambda locs, lid, names, attrs: wh if any(isinstance(locs.get(v), bool) for v in names) else None

    def handler(rng, locs, lid):
        if rng.step == 1 and rng.lo == 0 and bool(rng.hi == N - 1): return Forward(run)
        if rng.step == -1 and bool(rng.lo == N - 1) and bool(rng.hi == 0): return Backward(run)
        raise Unsupported("loop over an unexpected range")
    c.data["loop_handler"] = handler
    with patched(mf, **run.stubs()):
        r = call("simulate", e.simulate, Nmax=Nmax, cp=cp, verbose=verbose, solver=solver, Econv=rscalar("Econv"))
    returned("simulate", r)
    C().ob("dmrg.returned-energy", r is run.last[0], "engine", "not the energy of the last optimisation")
    final(run)


def final(run):
    e, m, w = run.e, run.m, run.w
    ensure("dmrg.final.position", m._position == 0)
    ensure_eq("dmrg.final.Z", A.toarr(m._Z), A.toarr(1))
    ensure_eq("dmrg.final.mat-norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1))
    for k in (0, 1):
        t = m._tensors[k]
        ensure_eq("dmrg.final.isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
    f = "D''" if run.phase == "backward" else "D"
    ensure_eq("dmrg.final.R", e._R[w.N - 1], spec_addlayer(w.RE(2, f), m._tensors[1], w.W[1], m._tensors[1], -1))


class ConcRun(Run):
    """chain of concrete length: the environments are recomputed from the current tensors"""
    def site(s, W):
        for p, x in enumerate(list.__iter__(s.e._mpo)):
            if x is W: return p
        raise Unsupported("operator tensor of unknown site")

    def envL(s, k):
        E_ = s.w.lb
        for j in range(k): E_ = spec_addlayer(E_, s.m._tensors[j], s.e._mpo[j], s.m._tensors[j], 1)
        return E_

    def envR(s, k):
        E_ = s.w.rb
        for j in range(s.N - 1, k - 1, -1): E_ = spec_addlayer(E_, s.m._tensors[j], s.e._mpo[j], s.m._tensors[j], -1)
        return E_

    def start_vector(s, n, x):
        m = s.m
        ensure("dmrg.bounded.centre", n in (m._position, m._position - 1))
        for j, t in enumerate(list.__iter__(m._tensors)):
            if j < n: ensure_eq("dmrg.bounded.left-isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
            if j > n: ensure_eq("dmrg.bounded.right-isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))


class ConcW:
    pass


def conc_engine(N, solver, twosite=False):
    D = [dim("D%d" % k) for k in range(N + 1)]
    wd = [dim("w%d" % k) for k in range(N + 1)]
    d = [dim("d%d" % k) for k in range(N)]
    w = ConcW()
    w.lb, w.rb = sym("lb", D[0], D[0], wd[0]), sym("rb", D[N], D[N], wd[N])
    w.W = VList([sym("W%d" % k, wd[k], wd[k + 1], d[k], d[k]) for k in range(N)])
    ts = [right_iso(sym("G%d" % k, D[k], D[k + 1], d[k]), "") for k in range(N)]
    m = mps_obj(N, VList(ts), 0, sym("mat0", D[0], D[0]), cscalar("Zm"))
    m.__dict__["save"] = lambda f: None
    e = engine(N, w, m)
    Rl = [w.rb]
    for k in range(N - 1, -1, -1): Rl.append(spec_addlayer(Rl[-1], ts[k], w.W[k], ts[k], -1))
    e._L, e._R = VList([w.lb] + [Poison(POIS)] * N), VList(Rl)
    return e, (ConcRun2 if twosite else ConcRun)(e, w, solver)


def bounded_simulate(N, Nmax, solver, cp, twosite=False):
    EN(); mf = MF()
    e, run = conc_engine(N, solver, twosite)
    m = e._mps
    kw = {}
    if twosite:
        assume(m._D >= 1)
        kw["truncation"] = two_site_setup(run)
        st, seen = m.__dict__["position"], [0]

        def move(bond, *a, **k):
            if len(run.log) > seen[0]:
                seen[0] = len(run.log)
                run.kept(run.log[-1])
            return st(bond, *a, **k)
        m.__dict__["position"] = m.__dict__["__position__"] = move
    with patched(mf, **run.stubs()):
        r = call("simulate", (e.simulateTwoSite if twosite else e.simulate), Nmax=Nmax, cp=cp, solver=solver, Econv=rscalar("Econv"), **kw)
    returned("simulate", r)
    C().ob("dmrg.returned-energy", r is run.last[0], "engine", "not the energy of the last optimisation")
    one = (list(range(N - 1)) + list(range(N - 1, 0, -1))) if not twosite else (list(range(N - 2)) + list(range(N - 2, -1, -1)))
    C().ob("dmrg.sweeps", len(run.log) % len(one) == 0 and 0 < len(run.log) <= Nmax * len(one) and run.log == one * (len(run.log) // len(one)), "engine", "sites %s" % run.log)
    ensure("dmrg.final.position", m._position == 0)
    ensure_eq("dmrg.final.Z", A.toarr(m._Z), A.toarr(1))
    ensure_eq("dmrg.final.mat-norm", spec([m._mat, A.conj(m._mat)], ["ab", "ab"], ""), A.toarr(1))
    for k in range(N):
        t = m._tensors[k]
        ensure_eq("dmrg.final.isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        if k: ensure_eq("dmrg.final.R", e._R[N - k], run.envR(k))
    ensure_eq("dmrg.final.L", e._L[0], w_lb(run))


def w_lb(run): return run.w.lb


# ---- two-site DMRG ---------------------------------------------------------------------------------------------------
def fused_mpo(Wl, Wr):
    v = spec([Wl, Wr], ["abij", "bckl"], "acikjl")
    a, c, i, k, j, l = v.shape
    return A.reshape(v, (a, c, i * k, j * l))


def fused_tensor(ts, labels, out):
    """out: left bond, physical left, physical right, right bond"""
    v = spec(ts, labels, out)
    a, s_, t_, b = v.shape
    return A.transpose(A.reshape(v, (a, s_ * t_, b)), (0, 2, 1))


class TwoMixin:
    def solve(s, L, mpo, R, x):
        n = s.pair(mpo)
        C().ob("dmrg2.operator", n is not None, "tensor", "the operator is not the product of two neighbouring operator tensors")
        if n is None: raise PathEnd()
        ensure_eq("dmrg2.left-environment", L, s.envL(n))
        ensure_eq("dmrg2.right-environment", R, s.envR(n + 2))
        s.start_vector(n, x)
        en, opt = rscalar(C().fresh("E")), sym(C().fresh("OPT"), *x.shape)
        T.add_rule("|opt|=1", T.einsum([opt.v, T.conj(opt.v)], [list("abs"), list("abs")], []), T.scalar(Poly.const(1)))
        s.log.append(n)
        s.last = (en, opt, n)
        return en, opt

    def kept(s, n):
        """the two tensors and the centre matrix are the leading part of the optimised two-site tensor, in canonical form"""
        m = s.m
        U, V, c = m._tensors[n], m._tensors[n + 1], m._mat
        opt = s.last[1]
        ensure_eq("dmrg2.left-isometry", spec([U, A.conj(U)], ["abs", "acs"], "bc"), A.np_eye(U.shape[1]))
        ensure_eq("dmrg2.right-isometry", spec([V, A.conj(V)], ["abs", "cbs"], "ac"), A.np_eye(V.shape[0]))
        ensure_eq("dmrg2.normalised", spec([c, A.conj(c)], ["ab", "ab"], ""), A.toarr(1))
        ensure("dmrg2.limit", (c.shape[0] <= m._D))
        if not s.counts: raise Unsupported("no threshold is applied to the singular values")
        cnt, thr = s.counts[-1][:2]
        ensure_eq("dmrg2.threshold", A.toarr(thr), s.trunc)
        K = c.shape[0]
        ensure("dmrg2.number-kept", (K == cnt) | (K == m._D) if isinstance(K == cnt, core.SBool) else bool(K == cnt) or bool(K == m._D))
        got = fused_tensor([U, c, V], ["abs", "bc", "cdt"], "astd")
        a, b, f = opt.shape
        full = A.reshape(A.transpose(opt, (0, 2, 1)), (a, U.shape[2], V.shape[2], b))
        ray("dmrg2.kept", got, fused_tensor([U, A.conj(U), full], ["axs", "cxu", "cutd"], "astd"))


class SymRun2(TwoMixin, Run):
    counts = ()
    def pair(s, mpo):
        w = s.w
        n = s.index
        want = fused_mpo(w.W[n], w.W[n + 1])
        return n if len(want.shape) == len(mpo.shape) and T.equal(mpo.v, want.v)[0] else None

    def start_vector(s, n, x):
        w, (kind, i, mat0, X) = s.w, s.head
        if kind == "F":      # mat0 at bond i, X at site i, old tensor at i+1
            ray("dmrg2.start-vector", x, fused_tensor([mat0, X, w.G(i + 1)], ["ab", "bcs", "cdt"], "astd"))
        if kind == "L":
            ray("dmrg2.start-vector", x, fused_tensor([mat0, X, w.G(i + 1)], ["ab", "bcs", "cdt"], "astd"))
        if kind == "B":
            ray("dmrg2.start-vector", x, fused_tensor([w.NT(i), X, mat0], ["abs", "bct", "cd"], "astd"))


class Head2:
    def __init__(s, run): s.run = run

    def set(s):
        run, w, e, m = s.run, s.run.w, s.run.e, s.run.m
        N = w.N
        rows(m._tensors, lambda q: w.G(q), N)
        rows(e._R, lambda k: w.RE(N - k) if k <= N - 1 else Poison(POIS), N + 1)
        rows(e._L, lambda k: w.lb if k == 0 else Poison(POIS), N + 1)
        m._position = 0
        m._mat = sym("mat0", w.b("D", 0), w.b("D", 0))
        m._Z = cscalar(C().fresh("ZH"))
        run.phase = "start"
        del run.log[:]


class While2(While):
    fields = ("_mat", "_Z", "_position")

    def check(s, locs, phase):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        if phase == "init":
            C().ob("dmrg2.no-optimisation-before", not run.log and run.phase == "start", "engine")
            s.booleans = [v for v in s.assigned if isinstance(locs.get(v), bool)]
            s.ints = [v for v in s.assigned if isinstance(locs.get(v), (int, SInt)) and v not in s.booleans and v != "n"]
            ensure("dmrg2.head.position", m._position == 0)
            return
        C().ob("dmrg2.complete-sweep", run.phase == "backward", "engine", "sweeps done: %s" % run.phase)
        s.back()
        s.energies(locs)

    def back(s):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        ensure("dmrg2.head.position", m._position == 0)
        t = m._tensors[0]
        ensure_eq("dmrg2.head.isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))
        frame("dmrg2.head", m._tensors, {0: 1})
        frame("dmrg2.head.L", e._L, {})
        frame("dmrg2.head.R", e._R, {w.N - 1: 1, w.N: 1})
        ensure_eq("dmrg2.head.R", e._R[w.N - 1], w.RE(1, "D''"))

    def havoc(s, locs):
        run, c = s.run, C()
        Head2(run).set()
        first = c.choose(2) == 0
        r = {}
        for v in s.booleans: r[v] = bool(c.choose(2)) if not first else locs[v]
        for v in s.assigned:
            x = locs.get(v)
            if v in r or v in ("n", "opt"): continue
            if isinstance(x, float) or isinstance(x, Arr): r[v] = rscalar(c.fresh(v)) if not first else x
        for v in s.ints:
            r[v] = sint(c.fresh("it")) if not first else locs[v]
            if not first: assume(r[v] >= 2)
        if not first:
            en = rscalar("Elast")
            run.last = (en, None, 0)
            for v in s.assigned:
                if v in energy_names(True): r[v] = en
        return r


class Forward2:
    fields = ("_mat", "_Z", "_position")
    special = (0,)
    def __init__(s, run): s.run = run
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        if phase == "init":
            C().ob("dmrg2.forward.first", run.phase == "start" and not run.log, "engine", "forward sweep after %s" % run.phase)
            return
        n = s.index
        C().ob("dmrg2.forward.once", len(run.log) == 1, "engine", "%d optimisations at a bond" % len(run.log))
        ensure("dmrg2.forward.bond", run.log[0] == n)
        ensure("dmrg2.forward.position", m._position == n + 1)
        run.kept(n)
        t = m._tensors[n]
        ensure_eq("dmrg2.forward.L", e._L[n + 1], spec_addlayer(w.LE(n), t, w.W[n], t, 1))
        frame("dmrg2.forward", m._tensors, {n: 1, n + 1: 1})
        frame("dmrg2.forward.L", e._L, {n + 1: 1})
        frame("dmrg2.forward.R", e._R, {})

    def havoc(s, i, locs):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        s.index = run.index = i
        ex = getattr(s, "at_exit", False)
        del run.log[:]
        X = run.X = w.G(0) if i == 0 else right_iso(sym("X", w.b("D'", i), w.b("D", i + 1), w.d(i)), "")

        def ten(q):
            if q == i: return X
            return w.NT(q) if q < i else w.G(q)
        rows(m._tensors, ten, w.N)
        rows(e._L, lambda k: w.LE(k) if k <= i else Poison(POIS), w.N + 1)
        rows(e._R, lambda k: w.RE(w.N - k) if k <= w.N - i - 1 else Poison(POIS), w.N + 1)
        m._position = i
        m._mat = sym("matF", w.b("D'", i), w.b("D'", i))
        m._Z = cscalar(C().fresh("ZF"))
        run.head = ("F", i, m._mat, X)
        run.envL, run.envR = (lambda k: w.LE(k)), (lambda k: w.RE(k))
        if ex: run.phase = "forward"
        run.last = (rscalar(C().fresh("E")), None, None)
        return {}


class Backward2:
    fields = ("_mat", "_Z", "_position")
    def __init__(s, run): s.run, s.special = run, (run.N - 2,)
    def lists(s): return [s.run.e._L, s.run.e._R, s.run.m._tensors]

    def check(s, i, locs, phase):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        N = w.N
        if phase == "init":
            C().ob("dmrg2.backward.after-forward", run.phase == "forward" and not run.log, "engine", "backward sweep after %s" % run.phase)
            ensure("dmrg2.backward.start", m._position == N - 2)
            return
        n = s.index
        for v in s.assigned:
            if v in energy_names(False): C().ob("dmrg.energy-of-the-site", locs.get(v) is run.last[0], "engine", "%s does not hold the energy of this optimisation" % v)
        C().ob("dmrg2.backward.once", len(run.log) == 1, "engine", "%d optimisations at a bond" % len(run.log))
        ensure("dmrg2.backward.bond", run.log[0] == n)
        ensure("dmrg2.backward.position", m._position == n + 1)
        run.kept(n)
        t = m._tensors[n + 1]
        ensure_eq("dmrg2.backward.R", e._R[N - n - 1], spec_addlayer(w.rb if n == N - 2 else w.RE(n + 2, "D''"), t, w.W[n + 1], t, -1))
        frame("dmrg2.backward", m._tensors, {n: 1, n + 1: 1})
        frame("dmrg2.backward.L", e._L, {})
        frame("dmrg2.backward.R", e._R, {N - n - 1: 1})

    def havoc(s, i, locs):
        run, e, m, w = s.run, s.run.e, s.run.m, s.run.w
        N = w.N
        s.index = run.index = i
        ex = getattr(s, "at_exit", False)
        del run.log[:]
        first = not ex and bool(i == N - 2)
        if first:
            X = run.X = right_iso(sym("X", w.b("D'", N - 2), w.b("D", N - 1), w.d(N - 2)), "")

            def ten(q):
                if q == N - 2: return X
                return w.NT(q) if q < N - 2 else w.G(q)
            rows(m._tensors, ten, N)
            rows(e._L, lambda k: w.LE(k) if k <= N - 2 else Poison(POIS), N + 1)
            rows(e._R, lambda k: w.RE(N - k) if k <= 1 else Poison(POIS), N + 1)
            m._position = N - 2
            m._mat = sym("matF", w.b("D'", N - 2), w.b("D'", N - 2))
            run.head = ("L", N - 2, m._mat, X)
            run.envL, run.envR = (lambda k: w.LE(k)), (lambda k: w.RE(k))
        else:
            X = run.X = left_iso(sym("X", w.b("D'", i + 1), w.b("D''", i + 2), w.d(i + 1)), "")

            def ten(q):
                if q == i + 1: return X
                return w.NT(q) if q <= i else w.G(q, "D''")
            rows(m._tensors, ten, N)
            rows(e._L, lambda k: w.LE(k) if k <= i + 1 else Poison(POIS), N + 1)
            rows(e._R, lambda k: w.RE(N - k, "D''") if k <= N - i - 2 else Poison(POIS), N + 1)
            m._position = i + 2
            m._mat = sym("matB", w.b("D''", i + 2), w.b("D''", i + 2))
            run.head = ("B", i, m._mat, X)
            run.envL, run.envR = (lambda k: w.LE(k)), (lambda k: w.RE(k, "D''"))
        m._Z = cscalar(C().fresh("ZB"))
        if ex:
            run.phase = "backward"
            E1 = w.RE(1, "D''")
            T.add_rule("RE-unfold", spec_addlayer(w.RE(2, "D''"), w.G(1, "D''"), w.W[1], w.G(1, "D''"), -1).v, E1.v)
            run.last = (rscalar(C().fresh("E")), X, 0)
            return {v: run.last[0] for v in s.assigned if v in energy_names(False)}
        return {}


def two_site_setup(run):
    c = C()
    c.data["svd_projection"] = True
    run.counts, run.trunc = [], posreal("trunc")
    c.data["onkept"] = lambda cnt, t, dd: run.counts.append((cnt, t, dd))
    return run.trunc


class ConcRun2(TwoMixin, ConcRun):
    def pair(s, mpo):
        W = list(list.__iter__(s.e._mpo))
        for n in range(s.N - 1):
            want = fused_mpo(W[n], W[n + 1])
            if len(want.shape) == len(mpo.shape) and all(core.deq(pint(a), pint(b)) for a, b in zip(want.shape, mpo.shape)) and T.equal(mpo.v, want.v)[0]:
                s.index = n
                return n
        return None

    def start_vector(s, n, x):
        m = s.m
        ts = list(list.__iter__(m._tensors))
        p = m._position
        ensure("dmrg2.bounded.centre", p in (n, n + 1, n + 2))
        if p == n + 1: two = spec([ts[n], m._mat, ts[n + 1]], ["abs", "bx", "xct"], "astc")
        else: two = spec([ts[n], ts[n + 1]], ["abs", "bct"], "astc")
        if p == n: two = spec([m._mat, two], ["xa", "astc"], "xstc")
        if p == n + 2: two = spec([two, m._mat], ["astc", "cx"], "astx")
        a, i, j, b = two.shape
        ray("dmrg2.bounded.start-vector", x, A.transpose(A.reshape(two, (a, i * j, b)), (0, 2, 1)))
        for j_, t in enumerate(ts):
            if j_ < n: ensure_eq("dmrg2.bounded.left-isometry", spec([t, A.conj(t)], ["abs", "acs"], "bc"), A.np_eye(t.shape[1]))
            if j_ > n + 1: ensure_eq("dmrg2.bounded.right-isometry", spec([t, A.conj(t)], ["abs", "cbs"], "ac"), A.np_eye(t.shape[0]))


def prove_two_site():
    EN(); mf = MF()
    c = C()
    N = sint("N")
    assume(N >= 4)
    w = World_(N)
    m = mps_obj(N, VList(), 0, None, cscalar("Zm"))
    e = engine(N, w, m)
    solver = ["AR", "LAN", "LOBPCG"][c.choose(3)]
    verbose = 1 if solver == "LAN" else 0
    cp = [None, sint("cp")][c.choose(2)] if solver == "AR" else None
    if cp is not None: assume(cp >= 1)
    Nmax = sint("Nmax")
    assume(Nmax >= 1)
    assume(m._D >= 1)
    run = SymRun2(e, w, solver)
    trunc = two_site_setup(run)
    Head2(run).set()
    wh = While2(run)
    m.__dict__["save"] = lambda f: None
    c.data["while_handler"] = lambda locs, lid, names, attrs: wh if any(isinstance(locs.get(v), bool) for v in names) else None

    def handler(rng, locs, lid):
        if rng.step == 1 and rng.lo == 0 and bool(rng.hi == N - 2): return Forward2(run)
        if rng.step == -1 and bool(rng.lo == N - 2) and bool(rng.hi == -1): return Backward2(run)
        raise Unsupported("loop over an unexpected range")
    c.data["loop_handler"] = handler
    with patched(mf, **run.stubs()):
        r = call("simulateTwoSite", e.simulateTwoSite, Nmax=Nmax, cp=cp, verbose=verbose, solver=solver, Econv=rscalar("Econv"), truncation=trunc)
    returned("simulateTwoSite", r)
    C().ob("dmrg2.returned-energy", r is run.last[0], "engine", "not the energy of the last optimisation")
    ensure("dmrg2.final.position", m._position == 0)
    ensure_eq("dmrg2.final.Z", A.toarr(m._Z), A.toarr(1))
    if run.phase == "backward": wh.back()
