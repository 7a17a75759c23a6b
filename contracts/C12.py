"""C12: time evolution applies the prescribed total time, whatever the checkpointing."""
from .base import *
from .callee import *
R = Registry()


def EN(): return world().load("lib.mpslib.engines")
def Pl(x): return A.aspoly(x)


def timestep():
    """arbitrary complex step"""
    return cscalar("dt")


def engine_obj():
    e = EN().TimeEvolutionEngine.__new__(EN().TimeEvolutionEngine)
    e._filename = "F"
    return e


# ---- layers of bond gates -----------------------------------------------------------------------------------------
class Gate:
    def __init__(s, n, m, tau): s.n, s.m, s.tau = n, m, tau


class GateOp:
    """operator whose two-site gates are identified by (n, m, tau); contract of twoSiteGate: see C10"""
    def twoSiteGate(s, n, m, tau): return Gate(n, m, tau)


class Chain:
    """the state, acted on only through applyTwoSiteGate (contract: C08) whose applications are recorded"""
    def __init__(s, N, log):
        s._N, s.log, s.D = N, log, [1, 2, 1]
        s.k = 0
        s.applyTwoSiteGate = getattr(s, "__applyTwoSiteGate__")

    def symlen(s): return s._N

    def __len__(s):
        if isinstance(s._N, SInt): raise Unsupported("len")
        return s._N

    def __applyTwoSiteGate__(s, gate, site, Dmax=None, thresh=1e-16, *a, **k):
        if a or k: raise Unsupported("further arguments of applyTwoSiteGate")
        s.k += 1
        tw = rscalar(C().fresh("tw"))
        s.log.append((gate, site, Dmax, thresh, tw))
        return tw, 2

    def resetZ(s): pass


def layer_entry(name, ent, tau, Dm, th):
    g, site, Dmax, thresh, tw = ent
    ensure(name + ".gate-of-its-bond", g.n == site)
    ensure(name + ".gate-of-its-bond", g.m == site + 1)
    ensure_eq(name + ".tau", A.toarr(g.tau), A.toarr(tau))
    C().ob(name + ".limits", Dmax is Dm and thresh is th, "engine", "limits are not passed on")
    return site


class LayerInv:
    fields = ("_tw", "_maxD")
    strides = True      # the invariant speaks about the sites the loop visits, whatever the stride

    def __init__(s, e, log, tau, Dm, th, parity, N, name): s.e, s.log, s.tau, s.Dm, s.th, s.parity, s.N, s.name = e, log, tau, Dm, th, parity, N, name
    def begin(s, rng):
        s.rng = rng
        return s

    def check(s, i, locs, phase):
        if phase == "init":
            if s.log: raise Unsupported("gates before the loop")
            C().ob(s.name + ".weight-kept", s.e._tw is s.tw0, "engine", "truncated weight is overwritten")
            return
        C().ob(s.name + ".one-gate", len(s.log) == 1, "engine", "%d gates in one iteration" % len(s.log))
        if len(s.log) != 1: return
        site = layer_entry(s.name, s.log[0], s.tau, s.Dm, s.th)
        ensure_eq(s.name + ".weight", A.toarr(s.e._tw), A.toarr(s.W) + A.toarr(s.log[0][4]))
        # the sites of the loop are exactly the even (odd) bonds, each once: range, parity, injective, cardinality
        k = s.index
        ensure(s.name + ".site-range", (site >= 0) & (site <= s.N - 2) if isinstance(site, SInt) else bool(0 <= site) and site <= s.N - 2)
        ensure(s.name + ".parity", site % 2 == s.parity)
        atoms = [a for m in pint(k).t for a, _ in m if a.name.startswith("i#")]
        if len(set(atoms)) != 1: raise Unsupported("loop index")
        i2 = Poly.atom("i'", "i")
        site2 = pint(site).subst(lambda a: i2 if a == atoms[0] else None)
        zi, zi2 = core.zint(SInt.mk(Poly.atom(atoms[0].name, "i"))), core.zint(SInt.mk(i2))
        ensure(s.name + ".once", core.SBool(z3.Implies(zi != zi2, C().z(pint(site)) != C().z(site2))))
        cnt = (s.N - s.parity) // 2
        ensure(s.name + ".all-bonds", s.rng.count() == cnt)

    def havoc(s, i, locs):
        s.index = i
        s.W = rscalar("W")
        s.e._tw, s.e._maxD = s.W, 2
        del s.log[:]
        return {}


def layer_setup(N):
    log = []
    e = engine_obj()
    e._mps, e._gates, e._tw, e._maxD, e._N = Chain(N, log), GateOp(), rscalar("tw0"), 1, N
    return e, log


@R.group("layers", ["TimeEvolutionEngine.applyEven", "TimeEvolutionEngine.applyOdd"])
def _():
    EN()
    N = sint("N")
    assume(N >= 1)
    parity = C().choose(2)
    e, log = layer_setup(N)
    tau, Dm, th = cscalar("tau"), sint("Dm"), rscalar("th")
    inv = LayerInv(e, log, tau, Dm, th, parity, N, "layer%d" % parity)
    inv.tw0 = e._tw
    hit = []

    def handler(rng, locs, lid):
        if hit: raise Unsupported("second loop")
        hit.append(rng)
        return inv.begin(rng)
    C().data["loop_handler"] = handler
    call("layer", e.applyOdd if parity else e.applyEven, tau, Dm, th)
    if not hit:
        # no symbolic loop was entered with an iteration: the chain has no such bond, or they were applied one by one
        sites = [layer_entry("layer%d" % parity, x, tau, Dm, th) for x in log]
        ensure("layer%d.nothing-to-do" % parity, (N - parity) // 2 == len(sites))


@R.fallback("layers", "chains of up to 6 sites")
def _():
    EN()
    N = 1 + C().choose(6)
    for parity in (0, 1):
        e, log = layer_setup(N)
        tau, Dm, th = cscalar("tau"), sint("Dm"), rscalar("th")
        tw0 = e._tw
        call("layer", e.applyOdd if parity else e.applyEven, tau, Dm, th)
        sites = [layer_entry("layer%d" % parity, x, tau, Dm, th) for x in log]
        C().ob("layer%d.bonds" % parity, sorted(sites) == list(range(parity, N - 1, 2)), "engine", "gates at %s" % sites)
        w = A.toarr(tw0)
        for x in log: w = w + A.toarr(x[4])
        ensure_eq("layer%d.weight" % parity, A.toarr(e._tw), w)


# ---- the Trotter sequence -----------------------------------------------------------------------------------------
def normal(log):
    """product of layers with adjacent layers of one kind merged (E(a)E(b) = E(a+b))"""
    out = []
    for k, t in log:
        t = Pl(t)
        if out and out[-1][0] == k: out[-1] = (k, out[-1][1] + t)
        else: out.append((k, t))
        if out[-1][1].iszero(): out.pop()
    return out


class Disk:
    def __init__(s): s.files, s.saves = set(), []
    def module(s):
        d = s

        def remove(f):
            if f not in d.files: raise VCFail("checkpoint.remove", "removes a file that does not exist")
            d.files.discard(f)
        return A.Namespace("os", path=A.Namespace("os.path", exists=lambda f: f in d.files, isfile=lambda f: f in d.files), remove=remove, unlink=remove)


class StepInv:
    """loop over the steps: S^i and, unless the run is over, an open even half step"""
    fields = ("_tw", "_t0", "_it")

    def __init__(s, e, log, dt, n, disk, keep, t00, it0, absim): s.e, s.log, s.dt, s.n, s.disk, s.keep, s.t00, s.it0, s.absim = e, log, dt, n, disk, keep, t00, it0, absim

    def want(s, i): return [("S", i)] + ([("E", s.dt / 2)] if i < s.n else [])

    def check(s, i, locs, phase):
        c = C()
        if phase == "init":
            c.ob("tebd.start-half-step", normal(s.log) == normal([("E", s.dt / 2)]), "engine", "layers before the first step: %s" % normal(s.log))
            s.names = [v for v in s.assigned if v in locs and (isinstance(locs[v], str) or locs[v] is None)]
            s.start = {v: locs[v] for v in s.names}
            c.ob("tebd.no-checkpoint-before", not s.disk.saves, "engine")
            return
        k = s.index
        full = [("S", k), ("E", s.dt / 2), ("O", s.dt), ("E", s.dt / 2)]
        end = full + ([("E", s.dt / 2)] if k + 1 < s.n else [])
        c.ob("tebd.step", normal(s.log) == normal(end), "engine", "layers %s, expected %s" % (normal(s.log), normal(end)))
        ensure_eq("tebd.time", A.toarr(s.e._t0), A.toarr(s.t00) + s.absim * (k + 1))
        ensure("tebd.iteration", s.e._it == s.it0 + k + 1)
        ensure_eq("tebd.weight", A.toarr(s.e._tw), s.W + s.e._vcadded)
        if not s.keep:
            if s.disk.saves:
                c.ob("tebd.latest-checkpoint-only", s.disk.files == {s.disk.saves[-1] + ".pickle"}, "engine", "files %s" % s.disk.files)
            else: c.ob("tebd.checkpoint-kept", s.disk.files == s.files0, "engine", "files %s" % s.disk.files)
            if k + 1 < s.n and s.names:
                for v in s.names:
                    x = locs[v]
                    c.ob("tebd.checkpoint-name", (x == s.start[v] and not s.disk.files) or (x is not None and {x + ".pickle"} == s.disk.files), "engine", "%r, files %s" % (x, s.disk.files))
        c.ob("tebd.files", all(f in s.disk.files for f in s.files0) or not s.keep, "engine", "a kept checkpoint was removed")

    def havoc(s, i, locs):
        c = C()
        s.index = i
        s.log[:] = s.want(i)
        s.e._t0 = A.toarr(s.t00) + s.absim * i
        s.e._it = s.it0 + i
        s.W = rscalar("W")
        s.e._tw = s.W
        s.e._vcadded = A.toarr(0)
        s.disk.saves = []
        old = c.choose(2) == 1
        s.disk.files = {"OLD.pickle"} if old else set()
        s.files0 = set(s.disk.files)
        return {v: ("OLD" if old else s.start[v]) for v in s.names}


def tebd_engine(log, disk, whole):
    """engine whose layers are recorded (contract of applyEven/applyOdd: group layers)"""
    e = engine_obj()
    e._vcadded = A.toarr(0)

    def layer(kind):
        def f(tau, Dmax, tr_thresh):
            log.append((kind, tau))
            w = rscalar(C().fresh("w"))
            e._vcadded = e._vcadded + w
            e._tw = A.toarr(e._tw) + w
            C().ob("tebd.limits-passed", Dmax is e.lim[0] and tr_thresh is e.lim[1], "engine")
        return f
    e.applyEven, e.applyOdd = layer("E"), layer("O")
    e._mps, e._gates = Chain(sint("N"), []), GateOp()

    def save(f):
        disk.saves.append(f)
        disk.files.add(f + ".pickle")
        whole(f)
    e.save = save
    return e


def tebd_args():
    c = C()
    k = c.choose(4)
    cp = None if k == 0 else sint("cp")
    if cp is not None: assume(cp >= 1)
    keep = k == 2
    verbose = 0 if k < 3 else 2
    return cp, keep, verbose


@R.group("tebd", ["TimeEvolutionEngine.doTEBD", "TimeEvolutionEngine.__doTEBD__"])
def _():
    EN()
    c = C()
    k0 = c.choose(2)
    n = 0
    if k0:
        n = sint("numsteps")
        assume(n >= 1)
    dt = timestep()
    cp, keep, verbose = tebd_args()
    disk, log = Disk(), []
    st = {}

    def whole(f):
        k = inv.index
        want = [("S", k), ("E", dt / 2), ("O", dt), ("E", dt / 2)]
        c.ob("tebd.checkpoint-after-whole-step", normal(log) == normal(want), "engine", "checkpoint holds %s" % normal(log))
    e = tebd_engine(log, disk, whole)
    e.lim = (sint("Dm"), rscalar("th"))
    e._tw, e._t0, e._it = rscalar("tw0"), rscalar("t00"), sint("it0")
    tw0, t00, it0 = e._tw, e._t0, e._it
    assume(it0 >= 0)
    absim = A.toarr(A.np_abs(A.imag(dt)))
    inv = StepInv(e, log, dt, n, disk, keep, t00, it0, absim)

    def handler(rng, locs, lid):
        if rng.lo != 0 or not (rng.hi == n) or rng.step != 1: raise Unsupported("loop over something else than the steps")
        return inv
    c.data["loop_handler"] = handler
    with patched(EN(), os=disk.module()):
        r = call("doTEBD", e.doTEBD, dt, n, e.lim[0], e.lim[1], verbose=verbose, cp=cp, keep_cp=keep)
    if n == 0: c.ob("tebd.zero-steps", not normal(log) and not disk.saves, "engine", "layers %s" % normal(log))
    else: c.ob("tebd.total", normal(log) == normal([("S", n)]), "engine")
    if not isinstance(r, tuple): raise VCFail("doTEBD/returns", "%r" % (r,))
    ensure_eq("tebd.returned-time", A.toarr(r[1]), A.toarr(t00) + absim * n)
    ensure_eq("tebd.returned-weight", A.toarr(r[0]), A.toarr(e._tw))
    ensure_eq("tebd.final-time", A.toarr(e._t0), A.toarr(t00) + absim * n)
    ensure("tebd.final-iteration", e._it == it0 + n)


def strang(dt, n):
    out = []
    for _ in range(n): out += [("E", dt / 2), ("O", dt), ("E", dt / 2)]
    return normal(out)


def gatelog(log):
    """gate sequence as layers: gates on bonds of one parity commute"""
    out = []
    for g, site, *_ in log:
        k = "EO"[site % 2]
        if not out or out[-1][0] != k: out.append((k, {}))
        out[-1][1][site] = out[-1][1].get(site, Poly.const(0)) + Pl(g.tau)
    return out


@R.fallback("tebd", "up to 3 steps, checkpoints every 1 or 2 steps, chains of 3 and 4 sites")
def _():
    EN()
    c = C()
    n = c.choose(4)
    dt = cscalar("dt")
    cp, keep, it0 = [(None, False, 0), (1, False, 1), (2, False, 1), (1, True, 0), (2, True, 2), (2, False, 0)][c.choose(6)]
    N = 3 + c.choose(2)
    log = []
    disk = Disk()

    def layers(m):
        want = []
        for k, t in strang(dt, m): want.append((k, {s: t for s in range("EO".index(k), N - 1, 2)}))
        return want
    e = engine_obj()
    e._mps, e._gates, e._maxD = Chain(N, log), GateOp(), 1
    e._tw, e._t0, e._it = rscalar("tw0"), rscalar("t00"), it0
    tw0, t00 = e._tw, e._t0
    cnt = [0]

    def save(f):
        disk.saves.append(f)
        disk.files.add(f + ".pickle")
        g = gatelog(log)
        c.ob("tebd.checkpoint-after-whole-step", any(g == layers(m) for m in range(1, n + 1)), "engine", "checkpoint holds %s" % g)
    e.save = save
    absim = A.toarr(A.np_abs(A.imag(dt)))
    Dm, th = sint("Dm"), rscalar("th")
    with patched(EN(), os=disk.module()):
        r = call("doTEBD", e.doTEBD, dt, n, Dm, th, verbose=[0, 1, 2][c.choose(3) if n == 1 else 0], cp=cp, keep_cp=keep)
    c.ob("tebd.total", gatelog(log) == layers(n), "engine", "%s" % gatelog(log))
    w = A.toarr(tw0)
    for x in log: w = w + A.toarr(x[4])
    ensure_eq("tebd.weight", A.toarr(e._tw), w)
    ensure_eq("tebd.final-time", A.toarr(e._t0), A.toarr(t00) + absim * n)
    ensure("tebd.final-iteration", e._it == it0 + n)
    if not keep: c.ob("tebd.latest-checkpoint-only", len(disk.files) <= 1 and (not disk.saves or disk.files == {disk.saves[-1] + ".pickle"}), "engine", "files %s" % disk.files)
    ensure_eq("tebd.returned-weight", A.toarr(r[0]), A.toarr(e._tw))


@R.group("reset", ["TimeEvolutionEngine.reset", "TimeEvolutionEngine.time", "TimeEvolutionEngine.iteration", "TimeEvolutionEngine.truncatedWeight"])
def _():
    EN()
    e = engine_obj()
    e._tw, e._t0, e._it = rscalar("tw0"), rscalar("t00"), sint("it0")
    C().ob("reset.reads", e.time is e._t0 and e.truncatedWeight is e._tw and e.iteration is e._it, "engine")
    call("reset", e.reset)
    C().ob("reset", e.time == 0 and e.truncatedWeight == 0 and e.iteration == 0, "engine")


# ---- variational evolution ----------------------------------------------------------------------------------------
from . import tdvp


@R.group("tdvp", ["TimeEvolutionEngine.doTDVP", "TimeEvolutionEngine.__doTDVP__", "MPS.__tensor__", "MPS.__setitem__"], maxpaths=900)
def _():
    tdvp.prove_tdvp(True, False)


def _tdvp_bounded():
    c = C()
    k = c.choose(8)
    N, steps, solver, cp, keep, it0, verbose = [(1, 1, "LAN", None, False, 0, 2), (2, 1, "RK45", None, False, 0, 1), (3, 1, "SEXPMV", None, False, 0, 0), (3, 1, "LAN", 1, False, 1, 0),
                                                (2, 3, "RK23", 1, False, 0, 0), (2, 3, "BDF", 2, True, 2, 0), (2, 2, "LSODA", 1, True, 1, 0), (3, 1, "Radau", 2, False, 2, 2)][k]
    tdvp.bounded_tdvp(N, steps, solver, cp, keep, it0, True, False, verbose)


R.fallback("tdvp", "chains of 1 to 3 sites, up to 3 steps")(_tdvp_bounded)


@R.group("tdvp.short-chains", ["TimeEvolutionEngine.__doTDVP__"])
def _():
    """chains of one and two sites, any number of steps"""
    c = C()
    n = sint("numsteps")
    assume(n >= 1)
    it0 = sint("it0")
    assume(it0 >= 0)
    N = 1 + c.choose(2)
    tdvp.bounded_tdvp(N, n, ["LAN", "SEXPMV", "RK45"][c.choose(3)], None, False, it0, True, False)


@R.group("tdvp.no-steps-and-refusal", ["TimeEvolutionEngine.__doTDVP__"])
def _():
    if C().choose(2): tdvp.bounded_tdvp(2, 0, "LAN", 1, False, 0, True, False)
    else:
        e = tdvp.engine(2, VList(), None, VList(), VList(), VList())
        ensure_raises("tdvp.unknown-solver", lambda: e.doTDVP(cscalar("dt"), 1, solver="EULER"), (ValueError, KeyError, AssertionError, TypeError))


# ---- the solvers: exponential of step times effective Hamiltonian --------------------------------------------------
class Flow:
    """external integrators (assumed contracts): solve_ivp, gexpmv and LanczosTimeEvolution return the solution of
    y' = M y after unit time, i.e. exp(M) y0; what the code passes as M and y0 is recorded and checked"""
    def __init__(s, n, cx): s.n, s.cx, s.calls = n, cx, []

    def record(s, apply, y0, kind):
        x = sym("probe", *y0.shape)
        s.calls.append((kind, x, apply(x), y0))
        s.out = sym("flow", *y0.shape)
        return s.out

    def solve_ivp(s, fun, t_span=None, y0=None, method="RK45", rtol=None, atol=None, **k):
        if k: raise Unsupported("further options of solve_ivp")
        t0, t1 = t_span
        s.method, s.rtol, s.atol = method, rtol, atol
        f = s.record(lambda x: fun(rscalar("t"), x) * (t1 - t0), y0, "ivp")
        s.need = True

        class Y:
            def __getitem__(q, i):
                if i != (slice(None), -1): raise Unsupported("solution at another time than the last")
                return f
        return A.Namespace("solution", y=Y(), t=[t0, t1], success=True, status=0)

    def gexpmv(s, op, v, t, anorm=1.0, *a, **k):
        if a or k: raise Unsupported("options of gexpmv")
        s.opdtype = op.dtype
        return s.record(lambda x: op.matvec(x) * t, v, "gexpmv"), None, None, None, None

    def linop(s, shape, matvec=None, rmatvec=None, matmat=None, dtype=None):
        return A.Namespace("LinearOperator", shape=shape, matvec=matvec, dtype=dtype)

    def lanczos(s):
        f = s

        class LTE:
            def __init__(q, mv, dot, zeros, ncv, delta): q.mv, f.ncv, f.delta = mv, ncv, delta
            def __doStep__(q, v, tau): return f.record(lambda x: q.mv(x) * tau, v, "lanczos")
            doStep = __doStep__
        return A.Namespace("LanczosEngine", LanczosTimeEvolution=LTE)

    def patches(s):
        return dict(solve_ivp=s.solve_ivp, sexpmv=A.Namespace("sexpmv", gexpmv=s.gexpmv), LinearOperator=s.linop, lanEn=s.lanczos())


def _evolve(kind, matrix):
    mf = MF()
    c = C()
    flags = [(0, 0, 0, 0), (0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 1, 1)][c.choose(6)]
    e, w, x, t = [bool(v) for v in flags]
    tau = cscalar("tau") if t else rscalar("tau")
    a, b, m1, m2, s = [dim(q) for q in ("a", "b", "m1", "m2", "s")]
    if matrix:
        L, Rr = sym("L", a, a, m1, cx=e), sym("R", b, b, m1, cx=w)
        X = sym("X", a, b, cx=x)
        n, args = a * b, (L, Rr, X, tau)
        want = lambda P: spec([L, P, Rr], ["acm", "ab", "bdm"], "cd")
        W = None
    else:
        L, Rr = sym("L", a, a, m1, cx=e), sym("R", b, b, m2, cx=e)
        W = sym("W", m1, m2, s, s, cx=w)
        X = sym("X", a, b, s, cx=x)
        n, args = a * b * s, (L, W, Rr, X, tau)
        want = lambda P: spec([L, P, W, Rr], ["acm", "abs", "mnst", "bdn"], "cdt")
    fl = Flow(n, any(flags))
    nm = "evolve%s%s" % ("Matrix" if matrix else "Tensor", kind)
    kw = {"Lan": dict(krylov_dimension=sint("ncv")), "solve_ivp": dict(method="RK23", rtol=rscalar("rtol"), atol=rscalar("atol")), "Sexpmv": {}}[kind]
    with patched(mf, **fl.patches()):
        got = returned(nm, call(nm, getattr(mf, nm), *args, **kw))
    C().ob(nm + ".integrated-once", len(fl.calls) == 1, "engine", "%d integrations" % len(fl.calls))
    if len(fl.calls) != 1: return
    k, probe, res, y0 = fl.calls[0]
    ensure_eq(nm + ".initial-vector", A.reshape(y0, X.shape), X)
    ensure_eq(nm + ".generator", A.reshape(res, X.shape), want(A.reshape(probe, X.shape)) * tau)
    ensure_shape(nm + ".shape", got, X.shape)
    ensure_eq(nm + ".result", got, A.reshape(fl.out, X.shape))
    if k in ("ivp", "gexpmv"): C().ob(nm + ".dtype", y0.v.cx == any(flags), "engine", "start vector is %s for %s data" % ("complex" if y0.v.cx else "real", "complex" if any(flags) else "real"))
    if k == "ivp": C().ob(nm + ".options", fl.method == "RK23" and fl.rtol is kw["rtol"] and fl.atol is kw["atol"], "engine")
    if k == "lanczos": C().ob(nm + ".options", fl.ncv is kw["krylov_dimension"], "engine")
    ensure_frame(nm + ".frame", *[q for q in (L, Rr, X, W) if q is not None])


for _k in ("Lan", "Sexpmv", "solve_ivp"):
    for _m in (False, True):
        R.group("evolve%s%s" % ("Matrix" if _m else "Tensor", _k), ["mpsfunctions.evolve%s%s" % ("Matrix" if _m else "Tensor", _k)])(lambda k=_k, m=_m: _evolve(k, m))
