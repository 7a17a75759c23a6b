"""Vocabulary for the sidecar contracts."""
import z3
from engine import core, arr as A, tensor as T, loader
from engine.core import SInt, dim, sint, VCFail, PathEnd, pint, zint, explore
from engine.poly import Poly, Unsupported, G
from engine.arr import Arr
from engine.loader import VList, World, Poison


def C(): return core.CTX


def assume(f):
    C().assume(f.f if isinstance(f, core.SBool) else f)


def sym(name, *shape, cx=True):
    if cx and "kinds" in C().data:
        m = [k for k in C().data["kinds"] if name == k or (name.startswith(k) and name[len(k)] in "0123456789['<>")]
        if m: cx = C().data["kinds"][max(m, key=len)]
    return Arr(T.symbol(name, shape, cx))


def mix(*names, **dep):
    """element types: every one of the named tensor families is real or complex on its own (all combinations for up to three
    families, otherwise all alike and each one differing from the rest); dep: families that are complex if one of the given is"""
    k = len(names)
    combos = [tuple(i >> j & 1 for j in range(k)) for i in range(2 ** k)] if k <= 3 else \
        [(1,) * k, (0,) * k] + [tuple(int((i == j) == bool(v)) for j in range(k)) for i in range(k) for v in (0, 1)]
    combos = combos[::-1] if k <= 3 else combos
    t = combos[C().choose(len(combos))]
    kinds = {n: bool(v) for n, v in zip(names, t)}
    for d, src in dep.items(): kinds[d] = any(kinds[x] for x in src)
    C().data["kinds"] = kinds
    return kinds


def spec(ts, labels, out):
    """the Einstein sum denoted by the labels (strings: one character per axis)"""
    return Arr(T.einsum([A.toarr(t).v for t in ts], [list(l) for l in labels], list(out)))


def posreal(name): return Arr(T.scalar(A.posatom(name)))
def cscalar(name): return Arr(T.scalar(Poly.atom(name, "c")))
def rscalar(name): return Arr(T.scalar(Poly.atom(name, "r")))


def ensure_eq(name, got, want):
    """postcondition: two tensor values are equal for all dimensions and entries"""
    import time
    t = time.time()
    if got is None:
        return C().ob(name, False, "tensor", "no value returned")
    got, want = A.toarr(got), A.toarr(want)
    ok, d = T.equal(got.v, want.v)
    return C().ob(name, ok, "tensor", d, (time.time() - t) * 1e3)


def ensure(name, cond, detail=""):
    if isinstance(cond, core.SBool): return C().prove_z(name, cond.f, detail)
    return C().ob(name, bool(cond), "engine", detail)


def ensure_shape(name, a, shape):
    got = a.shape
    ok = len(got) == len(shape) and all(T.deq(pint(x), pint(y)) for x, y in zip(got, shape))
    return C().ob(name, ok, "z3", "shape %s, expected %s" % (got, shape))


def ensure_frame(name, *arrs):
    """the function must not have written to these arrays"""
    bad = [i for i, a in enumerate(arrs) if a.version != 0 or a._poison]
    return C().ob(name, not bad, "engine", "inputs %s were modified in place" % bad if bad else "")


def ensure_raises(name, fn, kinds=(AssertionError, ValueError, TypeError, VCFail, IndexError, RuntimeError)):
    try: fn()
    except kinds: return C().ob(name, True, "engine")
    return C().ob(name, False, "engine", "no error raised")


def call(name, fn, *a, **k):
    """call a function of /repo: an exception raised by it is a failed obligation"""
    try:
        return fn(*a, **k)
    except (AssertionError, ValueError, KeyError, NameError, UnboundLocalError, ZeroDivisionError, SystemExit, IndexError) as e:
        tb = e.__traceback__
        last = tb
        while last.tb_next is not None: last = last.tb_next
        where = last.tb_frame.f_code.co_filename
        if not where.startswith(loader.REPO):
            raise Unsupported("%s inside the engine: %s" % (type(e).__name__, e))
        raise VCFail(name + "/no-exception", "%s: %s at %s:%d" % (type(e).__name__, e, where, last.tb_lineno))
    except (TypeError, AttributeError) as e:
        tb = e.__traceback__
        last = tb
        while last.tb_next is not None: last = last.tb_next
        where = last.tb_frame.f_code.co_filename
        raise Unsupported("%s: %s at %s:%d" % (type(e).__name__, e, where, last.tb_lineno))


def returned(name, r):
    if r is None: raise VCFail(name + "/returns", "returned None")
    return r


def chain(prefix, N, obc=True, cx=True, dname="D", d="d"):
    """list of N opaque site tensors (concrete N) with matching symbolic bonds"""
    D = [1 if obc and k in (0, N) else dim("%s%s%d" % (prefix, dname, k)) for k in range(N + 1)]
    if not obc: D[N] = D[0]
    ts = [sym("%s%d" % (prefix, k), D[k], D[k + 1], dim("%s%d" % (d, k)), cx=cx) for k in range(N)]
    return VList(ts)


class Group:
    """one function (or closely related family) with its proof harness.
    proof: unbounded harnesses; bounded: fallback harnesses [(label, fn)]; functions: names under contract"""
    def __init__(s, name, functions, proof=None, bounded=None, bound="", maxpaths=400):
        s.name, s.functions, s.proof, s.bounded, s.bound, s.maxpaths = name, functions, proof, bounded, bound, maxpaths


class Registry:
    def __init__(s): s.groups = []

    def group(s, name, functions, bounded_only=False, bound="", maxpaths=400):
        def deco(fn):
            if bounded_only: s.groups.append(Group(name, functions, None, fn, bound, maxpaths))
            else: s.groups.append(Group(name, functions, fn, None, bound, maxpaths))
            return fn
        return deco

    def fallback(s, name, bound):
        def deco(fn):
            for g in s.groups:
                if g.name == name:
                    g.bounded, g.bound = fn, bound
                    return fn
            raise KeyError(name)
        return deco


_W = {}


def world(key="t"):
    """all properties but C11 see ncon by its contract (Einstein sum; proved/bounded by C11)"""
    if key not in _W:
        w = _W[key] = World()
        if key == "t":
            w.load("lib.ncon")
            w.mods["lib.ncon"].ncon = A.ncon_spec
    return _W[key]


def MF(): return world().load("lib.mpslib.mpsfunctions")
def MPSM(): return world().load("lib.mpslib.mps")


class patched:
    def __init__(s, mod, **kw): s.mod, s.kw = mod, kw
    def __enter__(s):
        s.old = {k: s.mod.__dict__[k] for k in s.kw if k in s.mod.__dict__}
        s.mod.__dict__.update(s.kw)
    def __exit__(s, *a):
        for k in s.kw:
            if k not in s.old: del s.mod.__dict__[k]
        s.mod.__dict__.update(s.old)


class methods:
    """class-level stand-ins (contracts) for methods of a class of /repo"""
    def __init__(s, cls, **kw): s.cls, s.kw = cls, kw
    def __enter__(s):
        s.old = {k: s.cls.__dict__.get(k) for k in s.kw}
        for k, v in s.kw.items(): setattr(s.cls, k, v)
    def __exit__(s, *a):
        for k, v in s.old.items():
            if v is None: delattr(s.cls, k)
            else: setattr(s.cls, k, v)
