"""C09: the tensors of every model carry exactly the documented onsite and bond terms.

The constructors are executed on object arrays of exact scalars (couplings are indexed symbols J[k], the chain length is symbolic,
the loop over the sites is summarised as a family of tensors).  Contract: W(k) of the bulk has the form
first column / last row, with the identity in the two corners; W(k)[-1,0] = o(k); sum_b W(k)[-1,b] (x) W(k+1)[b,0] = h(k,k+1);
the first and last tensors are the last row and the first column.  lemma.chain: such tensors multiply to sum o(k) + sum h(k,k+1)."""
import fractions
import numpy as rnp
from .base import *
R = Registry()


def HM(): return world().load("lib.mpslib.Hamiltonians")
def P(x): return Poly.const(x)


def isreal(x):
    if isinstance(x, Poly): return close0(x - x.conj())
    if isinstance(x, SInt): return True
    return complex(x).imag == 0


def close0(p):
    """zero up to the rounding of numeric constants"""
    p = T.normcoef(P(p))
    return all(abs(float(c.a)) + abs(float(c.b)) < 1e-11 for c in p.t.values())


# ---- object arrays -------------------------------------------------------------------------------------------------------
class Obj(rnp.ndarray):
    cx = True      # element type holds complex numbers
    def __array_finalize__(s, o):
        s.cx = getattr(o, "cx", True)
        s.born = getattr(o, "born", None) if s.base is not None else None
        if s.born is None: s.born = next(A._serial)

    def __setitem__(s, k, v):
        fam = C().family
        if fam and s.born < fam[-1].serial: raise Unsupported("array created before a summarised loop is written in it")
        if isinstance(v, Arr): raise Unsupported("symbolic array stored in a model tensor")
        k = fixkey(k)
        if isinstance(v, rnp.ndarray) and v.ndim == 0: v = v[()]
        if isinstance(v, SInt) or getattr(type(v), "is_polyscalar", False): v = P(v)
        if isinstance(v, (VList, list, tuple)): v = obj(v)
        if not s.cx:
            if not all(isreal(x) for x in (v.flat if isinstance(v, rnp.ndarray) else [v])): raise VCFail("entries-representable", "a complex value is stored in a real tensor")
        if not isinstance(v, rnp.ndarray):
            t = rnp.ndarray.__getitem__(s, k)
            if isinstance(t, rnp.ndarray) and t.base is not None and t.ndim:
                t.fill(v)
                return
        rnp.ndarray.__setitem__(s, k, v)

    def __getitem__(s, k): return rnp.ndarray.__getitem__(s, fixkey(k))

    def _b(s, o, f, sw=False):
        if isinstance(o, (Arr, Blk)): return NotImplemented
        if not isinstance(o, rnp.ndarray): o = box(o)
        r = f(o, rnp.asarray(s)) if sw else f(rnp.asarray(s), rnp.asarray(o))
        return obj(r)
    def __mul__(s, o): return s._b(o, rnp.multiply)
    def __rmul__(s, o): return s._b(o, rnp.multiply, True)
    def __add__(s, o): return s._b(o, rnp.add)
    def __radd__(s, o): return s._b(o, rnp.add, True)
    def __sub__(s, o): return s._b(o, rnp.subtract)
    def __rsub__(s, o): return s._b(o, rnp.subtract, True)
    def __truediv__(s, o): return s._b(o, lambda a, b: rnp.vectorize(div, otypes=[object])(a, b))
    def _i(s, o, f):
        s[...] = f(s, o)
        return s
    def __imul__(s, o): return s._i(o, Obj.__mul__)
    def __iadd__(s, o): return s._i(o, Obj.__add__)
    def __isub__(s, o): return s._i(o, Obj.__sub__)
    def __itruediv__(s, o): return s._i(o, Obj.__truediv__)
    def __neg__(s): return s * (-1)
    def dot(s, o): return obj(rnp.dot(rnp.asarray(s), rnp.asarray(o)))
    __matmul__ = dot
    def conj(s): return obj(rnp.vectorize(lambda x: x.conjugate(), otypes=[object])(rnp.asarray(s)))
    conjugate = conj
    def copy(s, order="C"):
        r = obj(rnp.array(rnp.asarray(s), copy=True))
        r.cx = s.cx
        return r
    def __deepcopy__(s, m): return s.copy()
    __copy__ = copy
    def astype(s, dt, **kw):
        r = s.copy()
        r.cx = iscx(dt)
        if not r.cx and not all(isreal(x) for x in rnp.asarray(s).flat): raise VCFail("entries-representable", "complex values cast to a real type")
        return r
    @property
    def dtype(s): return A.CPLX if s.cx else A.FLOAT
    @property
    def T(s): return obj(rnp.asarray(s).T)
    def subst_(s, sy, p):
        r = obj([subst(x, sy, p) for x in rnp.asarray(s).flat], s.shape)
        r.cx = s.cx
        return r


def subst(x, sy, p): return loader.subst_value(x, sy, p) if isinstance(x, (Poly, SInt)) else x
def div(a, b):
    return P(a) / P(b) if isinstance(a, Poly) or isinstance(b, Poly) else a / b


def fixkey(k):
    for x in (k if isinstance(k, tuple) else (k,)):
        if isinstance(x, (SInt, Poly)): raise Unsupported("symbolic index of a model tensor")
    return k


def box(x):
    if isinstance(x, SInt): x = x.poly
    if getattr(type(x), "is_polyscalar", False): x = x.poly
    if isinstance(x, (list, tuple, VList)): return obj(x)
    z = rnp.empty((), object)
    z[()] = x
    return z


def obj(x, shape=None):
    if isinstance(x, VList): x = unlist(x)
    if shape is not None:
        r = rnp.empty(shape, object)
        for i, v in zip(rnp.ndindex(*shape), x): r[i] = v
        return r.view(Obj)
    return rnp.array(x, dtype=object).view(Obj)


def unlist(x):
    if isinstance(x, (VList, list, tuple)): return [unlist(x[i]) for i in range(len(x))]
    return x


def iscx(dt):
    if dt in (complex, A.CPLX): return True
    if dt in (float, int, None, A.FLOAT): return False
    if hasattr(dt, "kind"): return dt.kind == "c"
    raise Unsupported("element type %s" % (dt,))


def kron(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr): return A.kron(a, b)
    a, b = rnp.asarray(obj(a)), rnp.asarray(obj(b))
    r = rnp.einsum("ij,kl->ikjl", a, b) if False else rnp.multiply.outer(a, b).transpose(0, 2, 1, 3)
    return obj(rnp.array(r)).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


# ---- blocks: operators of symbolic dimension in a literal grid --------------------------------------------------------------
class Blk:
    __array_ufunc__ = None
    def __init__(s, sh, cx):
        s.sh, s.cx, s.b = tuple(sh), cx, {}
        s.born = next(A._serial)
    shape = property(lambda s: s.sh)
    ndim = 4
    dtype = property(lambda s: A.CPLX if s.cx else A.FLOAT)

    def key(s, k):
        if not isinstance(k, tuple): k = (k,)
        if len(k) == 1 and k[0] is Ellipsis: k = ()
        k = tuple(k) + (slice(None),) * (4 - len(k))
        out = []
        for x, n in zip(k[:2], s.sh[:2]):
            if isinstance(x, slice):
                out.append(list(range(n))[x])
                continue
            if isinstance(x, bool) or not isinstance(x, int): raise Unsupported("index of a model tensor")
            if not -n <= x < n: raise IndexError("index %d of an axis of length %d" % (x, n))
            out.append(x % n)
        for x in k[2:]:
            if not (isinstance(x, slice) and x == slice(None)): raise Unsupported("element of an operator of symbolic dimension")
        return out

    def zero(s): return world().np.zeros((s.sh[2], s.sh[3]))
    def get(s, i, j): return s.b.get((i, j), None) if (i, j) in s.b else s.zero()

    def __setitem__(s, k, v):
        fam = C().family
        if fam and s.born < fam[-1].serial: raise Unsupported("array created before a summarised loop is written in it")
        i, j = s.key(k)
        if isinstance(i, list) or isinstance(j, list):
            if not isinstance(v, BRow): raise Unsupported("assignment to several operators")
            ks = [(a, b) for a in (i if isinstance(i, list) else [i]) for b in (j if isinstance(j, list) else [j])]
            if len(ks) != len(v.ops): raise ValueError("could not broadcast")
            for q, o in zip(ks, v.ops): s.b[q] = o
            return
        v = A.toarr(v)
        if v.ndim == 0: raise Unsupported("scalar assigned to an operator")
        ensure_shape("operator-shape", v, s.sh[2:])
        s.b[(i, j)] = Arr(v.v)

    def __getitem__(s, k):
        i, j = s.key(k)
        if isinstance(i, list) and isinstance(j, list):
            r = Blk((len(i), len(j)) + s.sh[2:], s.cx)
            for a, p in enumerate(i):
                for b, q in enumerate(j):
                    if (p, q) in s.b: r.b[(a, b)] = s.b[(p, q)]
            return r
        if isinstance(i, list): return BRow([s.get(p, j) for p in i])
        if isinstance(j, list): return BRow([s.get(i, q) for q in j])
        return s.get(i, j)

    def astype(s, dt, **kw):
        r = s.copy()
        r.cx = iscx(dt)
        return r

    def copy(s):
        r = Blk(s.sh, s.cx)
        r.b = dict(s.b)
        return r
    def __deepcopy__(s, m): return s.copy()
    def subst_(s, sy, p):
        r = Blk(s.sh, s.cx)
        for k, v in s.b.items():
            if any(sy.name == a.name or a.name in loader.IDX for t in v.v.terms for a in t[0].atoms()): raise Unsupported("site dependent coupling of a boson model")
            r.b[k] = v
        return r
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("model tensor: %s" % k)


class BRow:
    def __init__(s, ops): s.ops = ops
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("row of operators: %s" % k)


# ---- numpy as seen by the model constructors ----------------------------------------------------------------------------------
class NP:
    """blk: operators of symbolic dimension are kept as opaque matrices"""
    def __init__(s, blk=None): s.blk, s.real = blk, world().np
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        if k in ("pi", "float64", "complex128", "float32", "complex64", "newaxis"): return getattr(rnp, k)
        raise Unsupported("numpy.%s is not modelled for model constructors" % k)

    @staticmethod
    def _issym(sh): return any(isinstance(x, SInt) for x in (sh if isinstance(sh, (tuple, list)) else (sh,)))

    def zeros(s, shape, dtype=float):
        shape = tuple(shape) if isinstance(shape, (tuple, list, VList)) else (shape,)
        if s._issym(shape):
            if len(shape) == 4 and all(isinstance(x, int) for x in shape[:2]): return Blk(shape, iscx(dtype))
            return world().np.zeros(shape)
        r = obj(rnp.full(shape, 0, dtype=object))
        r.cx = iscx(dtype)
        return r

    def eye(s, n, dtype=float):
        if s._issym(n): return world().np.eye(n)
        r = obj([[int(i == j) for j in range(n)] for i in range(n)])
        r.cx = iscx(dtype)
        return r
    identity = eye
    def array(s, x, dtype=None):
        if isinstance(x, Arr): return x.copy()
        return obj(x)
    def asarray(s, x, dtype=None): return x if isinstance(x, (Arr, Obj)) else obj(x)
    def copy(s, x): return Arr(x.v) if isinstance(x, Arr) else x.copy()
    def diag(s, x, k=0):
        if isinstance(x, Arr): raise Unsupported("diagonal of symbolic dimension")
        x = rnp.asarray(obj(x))
        if x.ndim == 2: return obj(rnp.diag(x, k))
        n = len(x) + abs(k)
        r = rnp.full((n, n), 0, dtype=object)
        for i, v in enumerate(x): r[(i, i + k) if k >= 0 else (i - k, i)] = v
        return obj(r)
    def arange(s, *a):
        if s._issym(a): raise Unsupported("arange of symbolic length")
        return obj(list(range(*a)))
    def sqrt(s, x):
        if isinstance(x, (Obj, VList, list)): return obj([A.sqrtpoly(P(v)) for v in obj(x).flat], obj(x).shape)
        if isinstance(x, SInt): return Root(x)
        return A.sqrtpoly(P(x))
    def kron(s, a, b): return kron(a, b)
    def dot(s, a, b): return a.dot(b)
    matmul = dot
    def conj(s, x): return A.conj(x) if isinstance(x, Arr) else x.conj()
    conjugate = conj
    def transpose(s, x, *a):
        if a: raise Unsupported("permutation")
        return A.transpose(x) if isinstance(x, Arr) else x.T
    def shape(s, x): return x.shape
    def zeros_like(s, x): return s.zeros(x.shape, x.dtype)
    def result_type(s, *a): return A.CPLX


class Root:
    def __init__(s, n): s.n = n


class Ladder:
    """loop over the occupations that fills the annihilation operator"""
    at_exit = False
    def __init__(s, d): s.d = d
    def check(s, i, locs, phase):
        if phase == "init":
            k = [v for v in s.assigned if isinstance(locs.get(v), Arr) and locs[v].ndim == 2]
            if len(k) != 1: raise Unsupported("ladder operator not found")
            s.var = k[0]
            if not (pint(i) == P(1)): raise Unsupported("loop over the occupations")
            ensure_shape("ladder.shape", locs[s.var], (s.d, s.d))
            ensure_eq("ladder.starts-empty", locs[s.var], world().np.zeros((s.d, s.d)))
            return
        r = locs[s.var]
        if not isinstance(r, Rec) or len(r.log) != 1: raise Unsupported("loop over the occupations")
        (a, b), v = r.log[0]
        if not isinstance(v, Root): raise Unsupported("ladder element")
        ensure("ladder.element", core.SBool(zint(v.n) == zint(s.i)))
        ensure("ladder.row", core.SBool(zint(a) == zint(s.i) - 1))
        ensure("ladder.column", core.SBool(zint(b) == zint(s.i)))
    def havoc(s, i, locs):
        s.i = i
        if not s.at_exit: return {s.var: Rec()}
        ensure("ladder.complete", core.SBool(zint(i) == zint(s.d)))
        return {s.var: sym("c", s.d, s.d, cx=False)}
    def lists(s): return []


class Rec:
    def __init__(s): s.log = []
    def __setitem__(s, k, v): s.log.append((k, v))
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("ladder operator: %s" % k)


# ---- the contract -----------------------------------------------------------------------------------------------------------
def same(name, got, want, d=None):
    if isinstance(got, (Arr, Poly)) or isinstance(want, Arr):
        if isinstance(got, Obj) or isinstance(want, Obj): raise Unsupported("mixed representations")
        return ensure_eq(name, got, want)
    g, w = rnp.asarray(obj(got)), rnp.asarray(obj(want))
    if g.shape != w.shape: return C().ob(name, False, "engine", "shape %s, expected %s" % (g.shape, w.shape))
    for i in rnp.ndindex(*g.shape):
        if not close0(P(g[i]) - P(w[i])): return C().ob(name, False, "poly", "element %s is %s, documented %s" % (i, P(g[i]), P(w[i])))
    C().ob(name, True, "poly")


def tensors(m, N):
    """accessor of the operator's tensors and its length"""
    W = m._mpo if hasattr(m, "_mpo") else m
    n = loader.vlen(W) if isinstance(W, VList) else len(W)
    ensure("length", n == N if isinstance(n, SInt) or isinstance(N, SInt) else n == N, "%s tensors" % (n,))
    return W


def total(terms, d):
    r = None
    for x in terms: r = x if r is None else r + x
    return r


def contract(m, N, M, d, onsite, bond, obc, eye):
    W = tensors(m, N)
    last = M - 1
    lit = isinstance(N, int)

    def shape(k, first, fin):
        want = (1 if first else M, 1 if fin else M, d, d)
        got = W[k].shape
        ok = len(got) == 4 and all(T.deq(pint(x), pint(y)) for x, y in zip(got, want))
        if not ok: raise VCFail("shape", "tensor %s has shape %s, expected %s" % (k, got, want))
        C().ob("shape", True, "engine")

    def bulk(k):
        w = W[k]
        same("bulk.identity-first", w[0, 0, :, :], eye)
        same("bulk.identity-last", w[last, last, :, :], eye)
        for a in range(M):
            for b in range(M):
                if b == 0 or a == last: continue
                same("bulk.zero", w[a, b, :, :], eye * 0)

    def site(k, first, fin):
        shape(k, first, fin)
        if first: same("first.identity", W[k][0, last, :, :], eye)
        if fin: same("last.identity", W[k][0, 0, :, :], eye)
        if not first and not fin: bulk(k)
        same("onsite", W[k][0 if first else last, 0, :, :], onsite(k))

    def pair(k, k1, first, fin):
        a, b = W[k], W[k1]
        got = total([kron(a[0 if first else last, s, :, :], b[s, 0, :, :]) for s in range(1, last)], d)
        same("bond", got, total([kron(x, y) for x, y in bond(k)], d))

    if lit:
        for k in range(N): site(k, obc and k == 0, obc and k == N - 1)
        for k in range(N - 1): pair(k, k + 1, obc and k == 0, obc and k + 1 == N - 1)
        if not obc: pair(N - 1, 0, False, False)
        return
    # symbolic length N >= 3 (obc), N >= 2 (pbc): first, a generic inner one, last
    k = sint("k")
    which = C().choose(3, "site")
    if which == 0:
        site(0, obc, False)
        pair(0, 1, obc, False)
    elif which == 1:
        assume(k >= 1)
        assume(k < N - 1)
        site(k, False, False)
        if C().choose(2): 
            assume(k < N - 2)
            pair(k, k + 1, False, False)
    else:
        site(N - 1, False, obc)
        pair(N - 2, N - 1, False, obc)
        if not obc: pair(N - 1, 0, False, False)


def coup(name, n, cx): return VList.family(lambda p: loader.indexed(name, p, "c" if cx else "r"), n)


SX = obj([[0, 1], [1, 0]])
SY = obj([[0, -1j], [1j, 0]])
ZM = obj([[-1, 0], [0, 1]])
SZ = obj([[1, 0], [0, -1]])
I2 = obj([[1, 0], [0, 1]])
I4 = kron(I2, I2)
CC = obj([[0, 1], [0, 0]])
NUM = obj([[0, 0], [0, 1]])
HALF = fractions.Fraction(1, 2)


def length(obc, lit=None):
    if lit is not None: return lit[C().choose(len(lit), "N")]
    N = sint("N")
    assume(N >= (2 if obc else 1))
    for s in ((2,) if obc else (1, 2)):
        if N == s: return s
    return N


def hermitian(bond, onsite, k=0):
    """the documented terms with real couplings are hermitian"""
    h = total([kron(a, b) for a, b in bond(k)], None)
    same("hermitian.bond", h, h.conj().T)
    o = onsite(k)
    same("hermitian.onsite", o, o.conj().T)


def spinmodel(name, M, d, names, build, terms, lits, real_ok=True, herm=True):
    """names: couplings; 's' site list of N, 'b' bond list of N-1 (open chains) or N"""
    def run(lit):
        hm = HM()
        obc = C().choose(2, "bc") == 0
        N = length(obc, None if lit is None else ([x for x in lit if x >= 2] if obc else lit))
        cx = C().choose(2, "cx") == 1 if real_ok is not None else False
        nb = N - 1 if obc else N
        cs = {q: coup(q, N if t == "s" else nb, cx) for q, t in names.items()}
        with patched(hm, np=NP()):
            m = call(name + ".__init__", lambda: build(hm, cs, obc, complex if cx or not real_ok else float))
        onsite, bond = terms(cs)
        contract(m, N, M, d, onsite, bond, obc, I2 if d == 2 else I4)
        if not cx: hermitian(bond, onsite)
        if hasattr(m, "_N"): ensure("fields", m._N == N)
    R.group(name, [name + ".__init__"])(lambda: run(None))
    R.fallback(name, "chains of 2 to 4 sites (periodic: 1 to 3)")(lambda: run((1, 2, 3, 4)))


spinmodel("TFI", 3, 2, dict(J="b", B="s"), lambda h, c, o, dt: h.TFI(c["J"], c["B"], o, dtype=dt),
          lambda c: (lambda k: ZM * c["B"][k], lambda k: [(SX * c["J"][k], SX)]), None)
spinmodel("TFI_2", 3, 2, dict(J="b", B="s"), lambda h, c, o, dt: h.TFI_2(c["J"], c["B"], o, dtype=dt),
          lambda c: (lambda k: SX * c["B"][k], lambda k: [(ZM * c["J"][k], ZM)]), None)
SZH = ZM * HALF
spinmodel("XXZ", 5, 2, dict(Jz="b", Jxy="b", B="s"), lambda h, c, o, dt: h.XXZ(c["Jz"], c["Jxy"], c["B"], o, dtype=dt),
          lambda c: (lambda k: SZH * c["B"][k], lambda k: [(SZH * c["Jz"][k], SZH), (CC * c["Jxy"][k] * HALF, CC.T), (CC.T * c["Jxy"][k] * HALF, CC)]), None)
spinmodel("XXZflipped", 5, 2, dict(D="b", J="b"), lambda h, c, o, dt: h.XXZflipped(c["D"], c["J"], o, dtype=complex),
          lambda c: (lambda k: I2 * 0, lambda k: [(SX * c["J"][k], SX), (SY * (-c["J"][k]), SY), (ZM * (-c["D"][k] * c["J"][k]), ZM)]), None)
XI, IX = [kron(p, I2) for p in (SX, SY, SZ)], [kron(I2, p) for p in (SX, SY, SZ)]
spinmodel("JessHamiltonian", 8, 4, dict(J="b", w="s", chi="s"), lambda h, c, o, dt: h.JessHamiltonian(c["J"], c["w"], c["chi"], o),
          lambda c: (lambda k: (XI[0] + IX[0]) * c["w"][k] + kron(SX, SX) * c["chi"][k],
                     lambda k: [(p * c["J"][k], p) for p in XI + IX]), None)
spinmodel("SpinlessFermions", 5, 2, dict(V="b", t="b", mu="s"), lambda h, c, o, dt: h.SpinlessFermions(c["V"], c["t"], c["mu"], o, dtype=dt),
          lambda c: (lambda k: NUM * c["mu"][k], lambda k: [(CC.T * (-c["t"][k]), CC), (CC * (-c["t"][k]), CC.T), (NUM * c["V"][k], NUM)]), None)
CD, CU, PP = kron(CC, I2), kron(SZ, CC), kron(SZ, SZ)


def hubterms(c):
    """fermions (down, up) on each site with the parity string of the sites to the left"""
    ons = lambda k: kron(I2, NUM) * c["mu"][k] + kron(NUM, I2) * c["md"][k] + kron(NUM, NUM) * c["U"][k]
    hop = lambda k: [(f.T.dot(PP) * (-c[t][k]), f) for f, t in ((CU, "tu"), (CD, "td"))] + [(f.dot(PP) * c[t][k], f.T) for f, t in ((CU, "tu"), (CD, "td"))]
    return ons, hop


spinmodel("HubbardChain", 6, 4, dict(U="s", tu="b", td="b", mu="s", md="s"), lambda h, c, o, dt: h.HubbardChain(c["U"], c["tu"], c["td"], c["mu"], c["md"], o, dtype=dt),
          hubterms, None)


@R.group("lemma.fermions", ["(lemma) the Hubbard and spinless hopping terms are those of fermions with the Jordan-Wigner string"])
def _():
    for f in (CU, CD):
        full = kron(f, I4).T.dot(kron(PP, f))
        same("lemma.hop", kron(f.T.dot(PP), f) + kron(f.dot(PP), f.T) * (-1), full + full.T)
        same("lemma.anticommute", kron(f, I4).dot(kron(PP, f)) + kron(PP, f).dot(kron(f, I4)), kron(I4, I4) * 0)
    same("lemma.spins-anticommute", CU.dot(CD) + CD.dot(CU), I4 * 0)
    same("lemma.number", CU.T.dot(CU) + CD.T.dot(CD), kron(I2, NUM) + kron(NUM, I2))
    full = kron(CC, I2).T.dot(kron(SZ, CC))
    same("lemma.spinless", kron(CC.T, CC) + kron(CC, CC.T), full + full.T)


@R.group("JessHamiltonian.refuses", ["JessHamiltonian.__init__"])
def _():
    hm = HM()
    N, n = sint("N"), sint("nJ")
    assume(N >= 2); assume(n >= 0)
    obc = C().choose(2) == 0
    assume(n != N - 1 if obc else n < N)
    with patched(hm, np=NP()):
        ensure_raises("refuses-wrong-length", lambda: hm.JessHamiltonian(coup("J", n, False), coup("w", N, False), coup("chi", N, False), obc))


# ---- bosons -------------------------------------------------------------------------------------------------------------------
def ladder(d):
    """annihilation, creation and number operator"""
    if isinstance(d, int):
        c = obj([[A.sqrtpoly(P(j)) if j == i + 1 else 0 for j in range(d)] for i in range(d)])
        cd = c.T
    else:
        c = sym("c", d, d, cx=False)
        cd = A.transpose(c)
    return c, cd, cd.dot(c)


def run_boson(fn, lit):
    d = dim("d") if not lit else (2 + C().choose(3, "cutoff"))
    if not lit: assume(d >= 2)

    def loop(rng, locs, lid):
        if d is not None and not isinstance(d, int) and pint(rng.lo) == P(1) and pint(rng.hi) == pint(d): return Ladder(d)
        return None
    C().data["loop_handler"] = loop
    fn(d)


def bosonmodel(name, M, build, terms, bcs=(True, False), fixed=None):
    """terms(d, c, cd, n, I, couplings) -> (onsite operator, bond pairs)"""
    def run(lit):
        def go(d):
            hm = HM()
            obc = bcs[C().choose(len(bcs), "bc")]
            N = fixed or length(obc)
            q = {k: A.posatom(k) for k in ("nu", "dx", "mass")}
            q.update({k: Poly.atom(k, "r") for k in ("mu", "g")})
            with patched(hm, np=NP()):
                m = call(name, lambda: build(hm, q, N, d, obc))
            c, cd, n = ladder(d)
            I = world().np.eye(d) if not isinstance(d, int) else obj([[int(i == j) for j in range(d)] for i in range(d)])
            onsite, bond = terms(q, c, cd, n, I)
            on = onsite if callable(onsite) else (lambda k: onsite)
            contract(m, N, M, d, on, lambda k: bond, obc, I)
        run_boson(go, lit)
    R.group(name, [name])(lambda: run(False))
    R.fallback(name, "cutoff 2 to 4")(lambda: run(True))


def quartic(c, cd):
    p = lambda *a: a[0].dot(a[1]).dot(a[2]).dot(a[3])
    return p(cd, cd, cd, cd) + p(cd, cd, cd, c) * 4 + p(cd, cd, c, c) * 6 + p(cd, c, c, c) * 4 + p(c, c, c, c)


def square(c, cd): return c.dot(c) + cd.dot(cd)
def hopping(f, c, cd): return [(c * (-f), cd), (cd * (-f), c)]
def both(f, I, o): return [(I * f, o), (o * f, I)]


def phi1(q, c, cd, n, I):
    A_, B_ = q["mu"] ** 2 + q["nu"] ** 2, q["mu"] ** 2 - q["nu"] ** 2
    h = P(1) / (q["nu"] * q["dx"] ** 2 * 2)
    return quartic(c, cd) * (q["g"] / (q["nu"] ** 2 * q["dx"] * 96)), hopping(h, c, cd) + both(A_ / (q["nu"] * 8) + h, I, n) + both(B_ / (q["nu"] * 16), I, square(c, cd))


def phi2(q, c, cd, n, I):
    A_, B_ = q["mu"] ** 2 + q["nu"] ** 2, q["mu"] ** 2 - q["nu"] ** 2
    h = P(1) / q["dx"] ** 2
    return quartic(c, cd) * (q["g"] / (q["nu"] * q["dx"] * 96)), hopping(h, c, cd) + both(A_ / P(4) + h, I, n) + both(B_ / P(8), I, square(c, cd))


def phi3(q, c, cd, n, I):
    A_, B_ = q["mu"] ** 2 + q["nu"] ** 2, q["mu"] ** 2 - q["nu"] ** 2
    h = P(1) / q["dx"] ** 2
    return n * (A_ / P(2)) + square(c, cd) * (B_ / P(4)) + quartic(c, cd) * (q["g"] / (q["nu"] * q["dx"] * 96)), hopping(h, c, cd) + both(h, I, n)


def phi4(q, c, cd, n, I):
    A_, B_ = q["mu"] ** 2 + q["nu"] ** 2, q["mu"] ** 2 - q["nu"] ** 2
    h = P(1) / q["dx"] ** 2
    return n * (A_ / P(2) + h * 2) + square(c, cd) * (B_ / P(4)) + quartic(c, cd) * (q["g"] / (q["nu"] * q["dx"] * 96)), hopping(h, c, cd)


def phi5(q, c, cd, n, I):
    o, b = phi4(q, c, cd, n, I)
    return o * HALF, b


for _n, _M, _t in (("PhiFourmpo", 10, phi1), ("PhiFourmpo2", 10, phi2), ("PhiFourmpo3", 6, phi3), ("PhiFourmpo4", 4, phi4)):
    bosonmodel(_n, _M, lambda h, q, N, d, obc, _n=_n: getattr(h, _n)(q["mu"], q["nu"], q["g"], N, q["dx"], d, obc), _t)
bosonmodel("TwoSitePhiFourMPO", 4, lambda h, q, N, d, obc: h.TwoSitePhiFourMPO(q["mu"], q["nu"], q["g"], q["dx"], d), phi5, (True,), 2)


def kin(q): return P(1) / (q["mass"] * q["dx"] ** 2 * 2)
def inter(c, cd): return cd.dot(cd).dot(c).dot(c)


LL = [lambda q, c, cd, n, I: (n * (q["mu"] + kin(q) * 2) + inter(c, cd) * (q["g"] / q["dx"]), hopping(kin(q), c, cd)),
      lambda q, c, cd, n, I: (inter(c, cd) * (q["g"] / q["dx"]), hopping(kin(q), c, cd) + both(q["mu"] / P(2) + kin(q), I, n)),
      lambda q, c, cd, n, I: (n * 0, hopping(kin(q), c, cd) + both(q["mu"] / P(2) + kin(q), I, n) + [(n * (q["g"] / q["dx"]), n)]),
      lambda q, c, cd, n, I: (n * q["mu"], hopping(kin(q), c, cd) + both(kin(q), I, n) + [(n * (q["g"] / q["dx"]), n)])]
for _k, (_n, _M) in enumerate((("LiebLinigermpo", 4), ("LiebLinigermpo1", 6), ("LiebLinigermpo2", 7), ("LiebLinigermpo3", 7))):
    bosonmodel(_n, _M, lambda h, q, N, d, obc, _n=_n: getattr(h, _n)(q["mu"], q["g"], q["mass"], N, q["dx"], d), LL[_k], (False,))


def local(q, c, cd, n, I):
    mu = coup("mu", 2, False)
    return (lambda k: n * (mu[k] / P(2) + kin(q)) + inter(c, cd) * (q["g"] / (q["dx"] * 2))), hopping(kin(q), c, cd)


bosonmodel("LocalLiebLinigermpo", 4, lambda h, q, N, d, obc: h.LocalLiebLinigermpo(coup("mu", 2, False), q["g"], q["mass"], q["dx"], d), local, (True,), 2)


@R.group("HomogeneousLiebLinigermpo", ["HomogeneousLiebLinigermpo"])
def _():
    hm = HM()
    g, mass = Poly.atom("g", "r"), A.posatom("mass")
    with patched(hm, np=NP()):
        m = call("HomogeneousLiebLinigermpo", lambda: hm.HomogeneousLiebLinigermpo(g, mass, dtype=[float, complex][C().choose(2)]))
    c, cd, n = CC, CC.T, NUM
    K, Q = P(1) / (mass * 2), I2 - NUM
    contract(m, 3, 7, 2, lambda k: n * 0, lambda k: hopping(K, c, cd) + [(Q * K, n), (n * K, Q), (n * g, n)], True, I2)


def projected(lit):
    hm = HM()
    obc = C().choose(2, "bc") == 0
    N = length(obc, None if lit is None else ([x for x in lit if x >= 2] if obc else lit))
    q = {k: A.posatom(k) for k in ("dx", "mass")}
    g = Poly.atom("g", "r")
    mu = coup("mu", N, False)
    with patched(hm, np=NP()):
        m = call("projectedLiebLinigermpo", lambda: hm.projectedLiebLinigermpo(mu, g, q["mass"], N, q["dx"], obc))
    c, cd, n, Q, K = CC, CC.T, NUM, I2 - NUM, kin(q)

    def onsite(k):
        end = obc and (bool(k == 0) or bool(k == N - 1))
        return n * mu[k] * (HALF if end else 1)
    contract(m, N, 7, 2, onsite, lambda k: hopping(K, c, cd) + [(n * K, Q), (Q, n * K), (n * (g / q["dx"]), n)], obc, I2)


R.group("projectedLiebLinigermpo", ["projectedLiebLinigermpo"])(lambda: projected(None))
R.fallback("projectedLiebLinigermpo", "chains of 2 to 4 sites (periodic: 1 to 3)")(lambda: projected((1, 2, 3, 4)))


# ---- composition --------------------------------------------------------------------------------------------------------------
@R.group("lemma.chain", ["(lemma) tensors of the standard form multiply to the sum of the onsite and bond terms"])
def _():
    """R_n = W_n R_(n+1) as a column of operators on the sites n..N-1 (identities understood): by induction from the last tensor,
    R_n[0] = 1, R_n[b] = b_n (column 0 of W_n), R_n[-1] = o_n + sum_b a_n,b (x) b_(n+1),b + R_(n+1)[-1]: the partial Hamiltonian"""
    m, d1, d2, D = dim("m"), dim("d1"), dim("d2"), dim("D")
    # one generic inner channel block of dimension m; the corner channels are explicit. W rows: (0, inner, last), columns the same
    e1, e2, eD = [world().np.eye(x) for x in (d1, d2, D)]
    o, a, b = sym("o", d1, d1), sym("a", m, d1, d1), sym("b", m, d1, d1)
    # column of the rest: [1, b' (x) 1, H'] with b' acting on site n+1 (d2) and H' on the sites n+1.. (d2 x D)
    b1, H1 = sym("bn", m, d2, d2), sym("Hn", d2, D, d2, D)
    one = spec([e2, eD], ["ab", "cd"], "acbd")
    inner = spec([b1, eD], ["mab", "cd"], "macbd")
    pair = lambda x, y: spec([x, y], ["ab", "cdef"], "acdbef")
    # matrix product of the operator-valued row (o, a, 1) with the column (1, b', H')
    H = pair(o, one) + spec([a, inner], ["mab", "mcdef"], "acdbef") + pair(e1, H1)
    want = spec([o, e2, eD], ["ab", "cd", "ef"], "acebdf") + spec([a, b1, eD], ["mab", "mcd", "ef"], "acebdf") + spec([e1, H1], ["ab", "cdef"], "acdbef")
    ensure_eq("lemma.chain.last", H, want)
    # rows 0 and inner: (1, 0, 0) and (b, 0, 0)
    ensure_eq("lemma.chain.first", pair(e1, one), spec([e1, e2, eD], ["ab", "cd", "ef"], "acebdf"))
    ensure_eq("lemma.chain.inner", spec([b, one], ["mab", "cdef"], "macdbef"), spec([b, e2, eD], ["mab", "cd", "ef"], "macebdf"))


@R.group("container", ["MPO.__init__", "MPO.fromlist", "MPO.fromMPO", "MPO.__getitem__", "MPO.__setitem__", "MPO.__len__", "MPO.dtype"])
def _():
    hm = HM()
    n = C().choose(4) + 1
    W = [sym("W%d" % k, dim("M%d" % k), dim("M%d" % (k + 1)), dim("d"), dim("d"), cx=bool(C().choose(2)) if k < 2 else False) for k in range(n)]
    m = call("fromlist", lambda: hm.MPO.fromlist(VList(list(W))))
    want = A.CPLX if any(w.v.cx for w in W) else A.FLOAT
    def agree(name, x):
        ensure(name + ".length", len(x) == n)
        for k in range(n): ensure_eq(name + ".tensor", x[k], W[k])
        C().ob(name + ".dtype", x.dtype == want, "engine", "dtype %s" % x.dtype)
    agree("fromlist", m)
    m2 = call("fromMPO", lambda: hm.MPO.fromMPO(m))
    agree("fromMPO", m2)
    X = sym("X", dim("M0"), dim("M1"), dim("d"), dim("d"))
    k = C().choose(n)
    m[k] = X
    ensure_eq("setitem", m[k], X)
    agree("isolated", m2)
    for w in W: ensure_frame("frame", w)
    m2[0][:, :, 0, 0] = 0
    ensure_eq("isolated.data", W[0], sym("W0", dim("M0"), dim("M1"), dim("d"), dim("d"), cx=W[0].v.cx))
