"""C16: copies and saved states agree with the original and share nothing mutable with it."""
import copy as pycopy
from .base import *
from .callee import *
R = Registry()
PLAIN = ("_N", "_D", "_obc", "_dtype", "_schmidt_thresh", "_r_thresh", "_position", "_Z")


def any_state(name="A", concrete=None, kind=None):
    """arbitrary state object: any length, centre, boundary condition, dtype, limits, canonical data present or not"""
    c = C()
    N = sint("N" + name) if concrete is None else concrete
    if concrete is None: assume(N >= 1)
    kind = c.choose(4) if kind is None else kind
    obc = kind % 2 == 1
    fam, b = obc_family(name, N, name + "D") if obc else cell(name, N)
    p = sint("pos" + name)
    assume(p >= 0); assume(p <= N)
    mat = sym(name + "mat", b(p) if concrete is None else dim("E0"), dim("E" + name))
    tens = VList.family(lambda q: fam[SInt.mk(q)], N) if concrete is None else VList([fam[k] for k in range(N)])
    m = mps_obj(N, tens, p, mat, cscalar("Z" + name), obc)
    m._connector = sym(name + "conn", dim("E" + name), dim("E" + name))
    m._d = VList.family(lambda q: bonddim("d", SInt.mk(q)), N) if concrete is None else VList([bonddim("d", k) for k in range(N)])
    m._dtype = A._np.dtype(complex) if kind >= 2 else A._np.dtype(float)
    m._D, m._schmidt_thresh, m._r_thresh = sint("Dmax" + name), rscalar("st" + name), rscalar("rt" + name)
    if kind in (1, 2):
        m._gamma = VList.family(lambda q: sym("%sG[%s]" % (name, q), bonddim(name + "g", SInt.mk(q)), bonddim(name + "g", SInt.mk(q) + 1), bonddim("d", SInt.mk(q))), N)
        m._lambda = VList.family(lambda q: sym("%sL[%s]" % (name, q), bonddim(name + "g", SInt.mk(q)), cx=False), N + 1)
    else: m._gamma, m._lambda = VList(), VList()
    return m


def cell(name, N):
    def b(k):
        k = SInt.mk(pint(k))
        if k == 0 or k == N: return dim(name + "D0")
        return bonddim(name + "D", k)
    return VList.family(lambda p: sym("%s[%s]" % (name, p), b(SInt.mk(p)), b(SInt.mk(p) + 1), bonddim("d", SInt.mk(p))), N), b


def root(a):
    while getattr(a, "base", None) is not None and a.base is not a: a = a.base
    return a


def fields(m): return {k: v for k, v in m.__dict__.items() if not k.startswith("__")}


def snap(m):
    """values of all fields (arrays: value and identity)"""
    out = {}
    for k, v in fields(m).items():
        out[k] = (v, Arr(v.v) if isinstance(v, Arr) else None)
    return out


def agree(name, m, c):
    """every field of the two states has the same value, and no mutable object is shared"""
    fm, fc = fields(m), fields(c)
    C().ob(name + ".fields", set(fm) == set(fc), "engine", "fields %s" % (set(fm) ^ set(fc)))
    for k in sorted(set(fm) & set(fc)):
        x, y = fm[k], fc[k]
        if isinstance(x, VList):
            if not isinstance(y, VList):
                C().ob("%s.%s" % (name, k), False, "engine", "not a list")
                continue
            C().ob(name + ".isolated" + k, x is not y, "engine", "the list is shared")
            n = x.symlen()
            ensure("%s.len%s" % (name, k), y.symlen() == n)
            if not (n >= 1): continue
            if isinstance(n, SInt):
                j = sint("j" + k)
                assume(j >= 0); assume(j < n)
                js = [j]
            else: js = range(n)
            for j in js:
                u, w = x[j], y[j]
                if isinstance(u, Arr):
                    if not isinstance(w, Arr):
                        C().ob("%s.%s" % (name, k), False, "engine", "element is not an array")
                        continue
                    C().ob(name + ".isolated" + k, root(u) is not root(w), "engine", "an array is shared")
                    ensure_eq(name + "." + k, w, u)
                    C().ob(name + ".dtype" + k, u.v.cx == w.v.cx, "engine")
                else: ensure(name + "." + k, w == u)
        elif isinstance(x, Arr) and not x.scalar and x.ndim:
            C().ob(name + ".isolated" + k, root(x) is not root(y), "engine", "an array is shared")
            ensure_eq(name + "." + k, y, x)
            C().ob(name + ".dtype" + k, x.v.cx == y.v.cx, "engine")
        elif isinstance(x, (Arr, Poly)): ensure_eq(name + "." + k, y, x)
        elif isinstance(x, SInt): ensure(name + "." + k, y == x)
        else: C().ob(name + "." + k, y is x or bool(y == x), "engine", "%r instead of %r" % (y, x))


def unchanged(name, m, s):
    f = fields(m)
    C().ob(name + ".fields", set(f) == set(s), "engine")
    for k, (v, val) in s.items():
        C().ob(name + k, f.get(k) is v, "engine", "field replaced")
        if isinstance(v, Arr): C().ob(name + k, v.version == 0 and not v._poison, "engine", "array modified")
        if isinstance(v, VList) and v.sym is not None: C().ob(name + k, not v.sym["over"] and all(t.version == 0 for t in v.sym["cache"].values() if isinstance(t, Arr)), "engine", "list modified")


def dtype_loop(N): return lambda rng, locs, lid: DtypeInv(rng, N) if DtypeInv.fits(locs, rng) else None


@R.group("copy", ["MPS.copy", "MPS.__copy__", "MPS.__init__"])
def _():
    MPSM()
    m = any_state()
    s = snap(m)
    C().data["loop_handler"] = dtype_loop(m._N)
    how = C().choose(3) if m._obc else 1
    c = call("copy", [lambda: m.copy(), lambda: m.__copy__(), lambda: pycopy.copy(m)][how])
    C().ob("copy.new-object", c is not m and type(c) is type(m), "engine")
    unchanged("copy.original", m, s)
    agree("copy", m, c)


class Disk:
    """open/pickle: a file holds a deep copy of what was dumped; loading returns a fresh deep copy (assumed contract of pickle)"""
    def __init__(s): s.files = {}

    def open(s, name, mode="r", *a, **k):
        d = s

        class F:
            def __enter__(f): return f
            def __exit__(f, *a): return False
            def close(f): pass
        f = F()
        f.name, f.mode = name, mode
        if "b" not in mode: raise VCFail("pickle.mode", "pickle on a text file")
        if "r" in mode and name not in d.files: raise VCFail("open", "file %s does not exist" % name)
        return f

    def dump(s, x, f, *a, **k):
        if "w" not in f.mode: raise VCFail("pickle.dump", "file not opened for writing")
        s.files[f.name] = pycopy.deepcopy(x)

    def load(s, f, *a, **k):
        if "r" not in f.mode: raise VCFail("pickle.load", "file not opened for reading")
        return pycopy.deepcopy(s.files[f.name])


def disk(mod):
    d = Disk()
    return d, patched(mod, pickle=A.Namespace("pickle", dump=d.dump, load=d.load, HIGHEST_PROTOCOL=4), open=d.open)


@R.group("save-load", ["MPS.save", "MPS.load"])
def _():
    M = MPSM()
    m = any_state("A")
    other = any_state("B", kind=0 if m._gamma.sym else 1)
    s = snap(m)
    d, p = disk(M)
    with p:
        call("save", m.save, "state")
        C().ob("save.file", list(d.files) == ["state.pickle"], "engine", "files %s" % list(d.files))
        unchanged("save.original", m, s)
        call("load", other.load, "state")
    unchanged("load.original", m, s)
    agree("load", m, other)


@R.group("container", ["Container.save", "Container.load"])
def _():
    EN = world().load("lib.mpslib.engines")
    e = EN.Container()
    e._mps = any_state("A")
    e._x = sym("x", dim("a"), dim("b"))
    s = snap(e._mps)
    d, p = disk(EN)
    with p:
        call("save", e.save, "sim")
        C().ob("container.file", list(d.files) == ["sim.pickle"], "engine")
        f = call("load", EN.Container().load, "sim")
    C().ob("container.type", type(f) is type(e) and f is not e, "engine")
    unchanged("container.original", e._mps, s)
    agree("container", e._mps, f._mps)
    C().ob("container.isolated", f._mps is not e._mps and f._x is not e._x, "engine")
    ensure_eq("container.array", f._x, e._x)


@R.group("element-access", ["MPS.__setitem__", "MPS.__getitem__", "MPS.__len__"])
def _():
    M = MPSM()
    N = sint("N")
    assume(N >= 1)
    m, fam, p, b = state("A", N)
    s, j = sint("s"), sint("j")
    assume(j >= 0); assume(j < N)
    m._tensors = VList.family(lambda q: fam[SInt.mk(q)], N)
    neg = C().choose(2)
    if neg: assume(s < 0); assume(s >= -N)
    else: assume(s >= 0); assume(s < N)
    k = s + N if neg else s
    t = sym("t", dim("t1"), dim("t2"), dim("t3"))
    ensure("len", M.MPS.__len__(m) == N)
    with patched(M): call("setitem", m.__setitem__, s, t)
    x = m._tensors[k]
    C().ob("setitem.copied", root(x) is not root(t), "engine", "the stored tensor is the caller's array")
    ensure_eq("setitem.value", x, t)
    ensure_frame("setitem.argument", t)
    if bool(j == k): return
    C().ob("setitem.frame", m._tensors[j] is fam[j], "engine", "another site was replaced")


@R.group("element-access.refusals", ["MPS.__setitem__", "MPS.__getitem__"])
def _():
    M = MPSM()
    N = sint("N")
    assume(N >= 1)
    m, fam, p, b = state("A", N)
    s = sint("s")
    if C().choose(2): assume(s >= N)
    else: assume(s < -N)
    t = sym("t", dim("t1"), dim("t2"), dim("t3"))
    if C().choose(2): ensure_raises("setitem.refusal", lambda: m.__setitem__(s, t), (AssertionError, IndexError, VCFail))
    else: ensure_raises("getitem.refusal", lambda: m.__getitem__(s), (AssertionError, IndexError, VCFail))
