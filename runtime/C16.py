from .rt import *
import copy as cpy, tempfile, os, shutil

FIELDS = ("_N", "_D", "_obc", "_dtype", "_schmidt_thresh", "_r_thresh", "_position", "_Z")


def anystate(r):
    """states of every kind the class produces: constructors, canonical, general, infinite cells, canonised"""
    M = mpsmod()
    k = r.int(0, 6)
    N = r.int(1, 5)
    if k <= 1: m = rstate(r, raw=(k == 1), Nmax=5)
    elif k == 2:
        d = [r.int(1, 3) for _ in range(N)]
        obc = r.coin() and N > 1
        m = M.MPS.productState([r.arr((x,), r.coin()) for x in d], obc=obc)
        r.note(kind="product", obc=obc, N=N)
    elif k == 3:
        obc = r.coin() and N > 1
        cx = r.coin()
        with quiet(): m = M.MPS.random(N, r.int(1, 3), 2, obc=obc, dtype=complex if cx else float)
        r.note(kind="random", obc=obc, N=N, cx=cx)
    elif k == 4:
        m = M.MPS(rtensors(r, N, [2] * N, 3, r.coin(), obc=False))
        r.note(kind="cell", N=N)
        D = m._mat.shape[0]
        m._Z = r.scalar()
        w = np.abs(r.arr((D,), False)) + 0.1
        m._mat = np.diag(w / np.linalg.norm(w))
        m._connector = np.diag(1 / np.diag(m._mat))
    elif k == 5:
        m = M.MPS(rtensors(r, N, [r.int(1, 3) for _ in range(N)], 3, r.coin()), schmidt_thresh=r.pick(1e-10, 1e-6), r_thresh=r.pick(1e-12, 1e-13))
        m._Z = r.scalar()
        r.note(kind="constructed", N=N)
    else:
        m = rstate(r, N=N, Nmax=5)
        with quiet():
            m.position(len(m))
            m.canonize()
        r.note(kind="canonised", N=N)
    if r.coin(0.5): m._D = r.int(1, 40)
    if r.coin(0.3): m._schmidt_thresh = r.pick(1e-12, 1e-3)
    if r.coin(0.3): m._r_thresh = r.pick(1e-12, 1e-3)
    return m


def full(m):
    d = {f: getattr(m, f) for f in FIELDS}
    d["_tensors"] = [np.array(t) for t in m._tensors]
    d["_mat"] = np.array(m._mat)
    d["_connector"] = np.array(m._connector)
    d["_gamma"] = [np.array(t) for t in m._gamma]
    d["_lambda"] = [np.array(t) for t in m._lambda]
    d["_d"] = list(m._d)
    return d


def same(d, e, msg):
    for f in FIELDS:
        check(d[f] == e[f] and (not isinstance(d[f], (bool, np.bool_)) or bool(d[f]) == bool(e[f])), "%s: %s differs" % (msg, f), got=e[f], want=d[f])
    check(d["_dtype"] == e["_dtype"], msg + ": dtype differs")
    for f in ("_tensors", "_gamma", "_lambda"):
        check(len(d[f]) == len(e[f]), "%s: %s has a different length" % (msg, f))
        for n, (a, b) in enumerate(zip(d[f], e[f])):
            check(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b), "%s: %s differs" % (msg, f), site=n)
    for f in ("_mat", "_connector"):
        check(d[f].shape == e[f].shape and d[f].dtype == e[f].dtype and np.array_equal(d[f], e[f]), "%s: %s differs" % (msg, f))
    check([int(x) for x in d["_d"]] == [int(x) for x in e["_d"]], msg + ": local dimensions differ", got=e["_d"], want=d["_d"])


def public(m):
    return dict(obc=bool(m.obc), pos=m.pos, dtype=m.dtype, D=list(m.D), d=list(m.d), Dmax=m.Dmax, N=len(m))


def mutate(r, m, what):
    """one in-place operation; failures of the operation itself are not this property's business"""
    N = len(m)
    try:
        with quiet():
            if what == "raw":
                for t in m._tensors: t[...] = 7.0
                m._mat[...] = 3.0
                m._connector[...] = 5.0
                for t in m._gamma: t[...] = 2.0
                for t in m._lambda: t[...] = 2.0
                m._Z = 11.0
                m._tensors.append(np.zeros((1, 1, 1)))
                m._d.append(99) if isinstance(m._d, list) else None
                m._gamma.append(1); m._lambda.append(1)
            elif what == "position": m.position(r.int(0, N))
            elif what == "imul": m *= 2.5
            elif what == "itruediv": m /= 2.5
            elif what == "iadd": m += m
            elif what == "setitem": m[r.int(0, N - 1)] = np.zeros((1, 1, 2))
            elif what == "gate1":
                s = r.int(0, N - 1)
                m.applyOneSiteGate(r.arr((m.d[s], m.d[s])), s)
            elif what == "gate2" and N > 1:
                s = r.int(0, N - 2)
                m.applyTwoSiteGate(r.arr((m.d[s], m.d[s + 1]) * 2), s)
            elif what == "truncate": m.truncate(schmidt_thresh=1e-2)
            elif what == "canonize": m.canonize()
            elif what == "resetZ": m.resetZ()
            elif what == "Dmax": m.Dmax = 77
            elif what == "tensor-clear": m.tensor(m._position if m._position < N else N - 1, clear=True)
            elif what == "inplace-tensor":
                t = m[r.int(0, N - 1)]
                t *= 3.0
            elif what == "tensors-property":
                for t in m.tensors: t += 1.0
            elif what == "normalise-mat":
                m._mat /= 2.0
                m._connector *= 2.0
    except Exception: return False
    return True


WHATS = ["raw", "position", "imul", "itruediv", "iadd", "setitem", "gate1", "gate2", "truncate", "canonize", "resetZ", "Dmax", "tensor-clear", "inplace-tensor",
         "tensors-property", "normalise-mat"]


@case("C16", "copy", ["MPS.copy", "MPS.__copy__"], 4)
def _(r):
    m = anystate(r)
    d, p = full(m), public(m)
    how = r.pick("copy", "__copy__", "copy.copy", "deepcopy")
    r.note(how=how)
    c = call(how, {"copy": m.copy, "__copy__": m.__copy__, "copy.copy": lambda: cpy.copy(m), "deepcopy": lambda: cpy.deepcopy(m)}[how])
    check(c is not m and isinstance(c, type(m)), "copy is not a new state")
    same(d, full(m), "original after copying")
    same(d, full(c), "copy")
    check(public(c) == p, "copy reports different properties", got=public(c), want=p)
    a, b = (m, c) if r.coin() else (c, m)
    ws = [r.pick(*WHATS) for _ in range(r.int(1, 3))] if r.coin(0.7) else ["raw"]
    r.note(ops=ws, on="original" if a is m else "copy")
    for w in ws:
        mutate(r, a, w)
        same(d, full(b), "in-place operation %s on the %s" % (w, "original" if a is m else "copy") + ": other state")


@case("C16", "save-load", ["MPS.save", "MPS.load"], 3)
def _(r):
    m = anystate(r)
    d, p = full(m), public(m)
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, r.pick("state", "a.b", "x_1"))
        call("save", m.save, fn)
        same(d, full(m), "original after saving")
        check(os.path.isfile(fn + ".pickle"), "no file written")
        a = anystate(r)
        call("load", a.load, fn)
    same(d, full(a), "loaded state")
    check(public(a) == p, "loaded state reports different properties", got=public(a), want=p)
    close(vec(a) if m.obc and m._tensors[0].shape[0] == 1 else np.zeros(1), vec(m) if m.obc and m._tensors[0].shape[0] == 1 else np.zeros(1), "amplitudes of the loaded state")
    x, y = (m, a) if r.coin() else (a, m)
    for w in [r.pick(*WHATS) for _ in range(r.int(1, 3))]:
        mutate(r, x, w)
        same(d, full(y), "in-place operation %s after loading: other state" % w)


@case("C16", "loaded-state-works", ["MPS.load", "MPS.__copy__"], 2)
def _(r):
    """a loaded / copied state behaves as the original under every further operation"""
    m = rstate(r, Nmax=5)
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "s")
        call("save", m.save, fn)
        a = rstate(r, Nmax=3)
        call("load", a.load, fn)
    c = call("copy", m.copy)
    for w in range(r.int(1, 3)):
        b = r.int(0, len(m))
        for s in (m, a, c): call("position", s.position, b)
    close(vec(a), vec(m), "loaded state after moving the centre")
    close(vec(c), vec(m), "copied state after moving the centre")
    s = r.int(0, len(m) - 1)
    o = r.arr((m.d[s], m.d[s]))
    with quiet(): want = m.measureLocal(o, s)
    close(call("measureLocal", a.measureLocal, o, s), want, "expectation value in the loaded state")
    close(call("measureLocal", c.measureLocal, o, s), want, "expectation value in the copied state")


@case("C16", "container", ["Container.save", "Container.load"], 2)
def _(r):
    import importlib
    with quiet():
        import lib.mpslib.engines as en, lib.mpslib.Hamiltonians as H
    N = r.int(2, 5)
    m = rstate(r, N=N, ds=[2] * N)
    mpo = H.TFI(r.arr((N - 1,), False), r.arr((N,), False), True)
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "sim")
        e = call("engine", r.pick(en.DMRGengine, en.TimeEvolutionEngine), m, mpo, os.path.join(tmp, "name"))
        d = full(e.mps)
        t0 = getattr(e, "_t0", None)
        call("save", e.save, fn)
        f = call("load", en.Container().load, fn)
    check(type(f) is type(e), "loaded simulation has another type", got=type(f).__name__)
    same(d, full(e.mps), "state of the saved simulation")
    same(d, full(f.mps), "state of the loaded simulation")
    close(mpo_dense([np.asarray(f._mpo[k]) for k in range(N)]), mpo_dense([np.asarray(e._mpo[k]) for k in range(N)]), "operator of the loaded simulation")
    check(getattr(f, "_t0", None) == t0, "time of the loaded simulation")
    mutate(r, e.mps, "raw")
    same(d, full(f.mps), "in-place operation on the saved simulation: loaded one")


@case("C16", "element-access", ["MPS.__setitem__", "MPS.__getitem__"], 1)
def _(r):
    m, q = anystate(r), anystate(r)
    N = len(m)
    j = r.int(0, N - 1)
    k = r.pick(j, j - N)
    t = q[r.int(0, len(q) - 1)]
    keep = np.array(t)
    d, e = full(m), full(q)
    def put(): m[k] = t
    call("__setitem__", put)
    check(np.array_equal(m._tensors[j], keep) and m._tensors[j].shape == keep.shape, "assigned tensor", site=j)
    if N > 0 and k >= 0: check(np.array_equal(m[k], keep), "tensor read back", site=j)
    for i in range(N):
        if i != j: check(np.array_equal(m._tensors[i], d["_tensors"][i]), "assignment changed another site", site=i)
    m._tensors[j][...] = 5.0
    same(e, full(q), "the state whose tensor was assigned to another one")
    def bad(): m[r.pick(N, N + 3, -N - 1)] = t
    refuses("__setitem__ outside the chain", bad)
