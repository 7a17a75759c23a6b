"""Symbolic ndarray (`Arr`, a mutable box around a `Net`) with numpy's semantics, and the numpy stand-in module.

Everything here is the *trusted* model of numpy/scipy: exact arithmetic over the reals/complex numbers."""
import weakref, math
from fractions import Fraction
import numpy as _np
import z3
from . import core, tensor as T
from .core import SInt, SBool, VCFail, PathEnd, pint, deq, opaque_bool
from .poly import Poly, Unsupported, G, _num

FLOAT = _np.dtype(float)
CPLX = _np.dtype(complex)


def C(): return core.CTX


def isconcrete(x):
    return isinstance(x, (int, float, complex, _np.generic, bool)) and not isinstance(x, SInt)


class Mask:
    def __init__(s, arr, op, thr): s.arr, s.op, s.thr, s.n = arr, op, thr, arr.v

    def __invert__(s): return Mask(s.arr, {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[s.op], s.thr)


def posvec(n):
    """the entries are products of (declared) strictly positive, well separated from zero, factors"""
    n = T.rewrite(n)
    if len(n.terms) != 1 or not n.terms[0][1]: return False
    cf, fs = n.terms[0]
    pv = C().data.get("posvec", ())
    if not all(f.sym in pv for f in fs) or len(cf.t) != 1: return False
    (m, x), = cf.t.items()
    return x.b == 0 and x.a > 0 and all(a in C().posatoms for a, e in m)


def decided(k):
    """True / False: the mask selects everything / nothing (precondition: positive vectors are above the rounding thresholds)"""
    if not isinstance(k, Mask): return None
    if isconcrete(k.thr) and posvec(k.n):
        if k.thr < 0: return k.op in (">", ">=")
        if k.thr <= 1e-8:
            C().assumptions.add("the positive spectrum (density matrix or Schmidt values) lies above the pseudo-inverse threshold")
            return k.op in (">", ">=")
    return None


def nonzero(k, *a):
    if isinstance(k, Mask) and not a: return k
    if isinstance(k, Mask) and len(a) == 2:
        d = decided(k)
        if d is None: raise Unsupported("np.where")
        r = toarr(a[0] if d else a[1])
        return Arr(r.v) if r.ndim else Arr(T.scale(T.ones(k.arr.shape, r.v.cx), aspoly(r)))
    return _np.nonzero(k)


_serial = __import__("itertools").count(1)


_clock = __import__("itertools").count(1)
def tick(): return next(_clock)


THROUGH = "an in-place update through a view"


def _samekey(a, b):
    a, b = (x if isinstance(x, tuple) else (x,) for x in (a, b))
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if type(x) is not type(y): return False
        if isinstance(x, slice):
            if (x.start, x.stop, x.step) != (None, None, None) or (y.start, y.stop, y.step) != (None, None, None): return False
        elif not isinstance(x, int) or x != y: return False
    return True


class Arr:
    _m = 0
    _through = None
    _key = None
    __array_priority__ = 2000.0
    __array_ufunc__ = None
    __hash__ = None

    def __init__(s, net, base=None, scalar=None):
        s._v = net
        s._base = base
        s._views = []
        s._poison = None
        s._pend = []
        s.serial = next(_serial)
        s.version = 0
        s.scalar = (len(net.axes) == 0) if scalar is None else scalar
        if base is not None:
            base._views.append(weakref.ref(s))

    # value -------------------------------------------------------------------------------------------
    @property
    def v(s):
        if s._poison: raise Unsupported("use of an array after %s" % s._poison)
        if s._pend: _materialise(s)
        return s._v

    def _set(s, net):
        if s._base is not None:
            b = s._base
            b._through = s if b._poison is None and not b._pend else None
            while b is not None:
                b._poison = THROUGH
                b.version += 1
                b._m = tick()
                b = b._base
        for w in s._views:
            o = w()
            if o is not None: o._poison = "an in-place update of its base"
        s._views = []
        s._pend = []
        s._v = net
        s.version += 1
        s._m = tick()

    @property
    def shape(s): return s._v.shape() if s._pend else s.v.shape()
    @property
    def ndim(s): return len(s.v.axes)
    @property
    def dtype(s): return CPLX if s.v.cx else FLOAT
    @property
    def size(s):
        r = 1
        for x in s.shape: r = r * x
        return r
    @property
    def T(s): return Arr(T.transpose(s.v, tuple(reversed(range(s.ndim)))), base=s)
    @property
    def real(s): return real(s)
    @property
    def imag(s): return imag(s)
    @property
    def poly(s):
        if s.ndim: raise Unsupported("array used as a scalar")
        return aspoly(s)

    def __len__(s):
        d = s.shape[0]
        if isinstance(d, SInt): raise Unsupported("len() of a symbolic axis at C level")
        return d

    def __iter__(s):
        d = s.shape[0]
        if isinstance(d, SInt): raise Unsupported("iteration over a symbolic axis")
        return iter([s[i] for i in range(d)])

    def copy(s): return Arr(s.v)
    def __copy__(s): return Arr(s.v)
    def __deepcopy__(s, memo): return Arr(s.v)
    def conj(s): return conj(s)
    conjugate = conj
    def dot(s, o): return dot(s, o)
    def transpose(s, *p):
        if not p: return s.T
        return transpose(s, p[0] if len(p) == 1 and not isinstance(p[0], int) else p)
    def reshape(s, *p, **k):
        return reshape(s, p[0] if len(p) == 1 else p, **k)
    def trace(s): return trace(s)
    def sum(s, axis=None): return np_sum(s, axis)
    def flatten(s): return reshape(s.copy(), (s.size,))
    ravel = flatten
    def squeeze(s): return squeeze(s)
    def astype(s, dt, **kw):
        dt = _np.dtype(dt)
        if dt.kind == "c":
            n = s.v
            return Arr(T.Net(n.axes, n.terms, True), scalar=s.scalar)
        if dt.kind == "f":
            return Arr(_realpart(s.v), scalar=s.scalar)
        raise Unsupported("astype %s" % dt)
    def fill(s, x):
        o = T.ones(s.shape, s.v.cx)
        s._set(T.scale(o, aspoly(x)))
    def item(s):
        if s.ndim == 0: return s
        raise Unsupported("item()")
    def tolist(s): raise Unsupported("tolist")

    # arithmetic ---------------------------------------------------------------------------------------
    def __neg__(s): return Arr(T.scale(s.v, -1))
    def __pos__(s): return Arr(s.v)
    def __add__(s, o): return _addsub(s, o, 1)
    def __radd__(s, o): return _addsub(s, o, 1)
    def __sub__(s, o): return _addsub(s, o, -1)
    def __rsub__(s, o): return _addsub(-s, o, 1)
    def __mul__(s, o): return _mul(s, o)
    def __rmul__(s, o): return _mul(s, o)
    def __truediv__(s, o): return _div(s, o)
    def __rtruediv__(s, o): return _mul(inverse_elem(s), o)
    def __pow__(s, n):
        if isinstance(n, int) and n >= 0:
            r = None
            for _ in range(n): r = s if r is None else _mul(r, s)
            return r if r is not None else Arr(T.ones(s.shape))
        if s.ndim == 0 and isinstance(n, (float, Poly, _np.floating)) and (n != 0.5 or C().data.get("roots")): return Arr(T.scalar(rootpoly(aspoly(s), n)))
        if isinstance(n, float) and n == 0.5: return np_sqrt(s)
        if isinstance(n, int) and n < 0: return inverse_elem(s ** (-n))
        raise Unsupported("power %s" % (n,))
    def __matmul__(s, o): return dot(s, o)

    def _inpl(s, r):
        if s.scalar: return r
        if r.v.cx and not s.v.cx and not _isreal(r.v):
            raise VCFail("casting", "in-place operation casts complex into a real array")
        n = r.v
        if len(n.axes) != len(s.v.axes): raise VCFail("broadcast", "in-place operation changes the shape")
        s._set(T.Net(n.axes, n.terms, s.v.cx))
        return s
    def __iadd__(s, o): return s._inpl(s + o)
    def __isub__(s, o): return s._inpl(s - o)
    def __imul__(s, o): return s._inpl(s * o)
    def __itruediv__(s, o): return s._inpl(s / o)

    # comparisons ----------------------------------------------------------------------------------------
    def _cmp(s, o, op):
        if s.ndim == 0:
            if o is None: return op == "!="
            return compare(s, o, op)
        if s.ndim == 1: return Mask(s, op, o)
        raise Unsupported("elementwise comparison")
    def __lt__(s, o): return s._cmp(o, "<")
    def __le__(s, o): return s._cmp(o, "<=")
    def __gt__(s, o): return s._cmp(o, ">")
    def __ge__(s, o): return s._cmp(o, ">=")
    def __eq__(s, o):
        if s.ndim and o is None: raise VCFail("ambiguous-truth", "array == None is elementwise")
        return s._cmp(o, "==")
    def __ne__(s, o):
        if s.ndim and o is None: raise VCFail("ambiguous-truth", "array != None is elementwise")
        return s._cmp(o, "!=")
    def __bool__(s):
        if s.ndim == 0: return bool(compare(s, 0, "!="))
        raise VCFail("ambiguous-truth", "truth value of an array")
    def __abs__(s): return np_abs(s)
    def __float__(s): raise Unsupported("float() of a symbolic scalar")
    def __complex__(s): raise Unsupported("complex() of a symbolic scalar")
    def __int__(s): raise Unsupported("int() of a symbolic scalar")
    def __repr__(s): return "Arr%s" % (s.v.shape(),) if not s._poison else "Arr(poisoned)"
    def __format__(s, f): return repr(s)

    # indexing ---------------------------------------------------------------------------------------------
    def __getitem__(s, k):
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Mask): k = k[0]
        if isinstance(k, Mask):
            d = decided(k)
            if d is not None and s.ndim == 1 and deq(pint(s.shape[0]), pint(k.arr.shape[0])):
                return Arr(s.v) if d else Arr(T.zeros((0,), s.v.cx))
            return mask_select(s, k)
        n, drop, new, full = _index(s, k)
        axes = tuple(a for i, a in enumerate(n.axes) if i not in drop)
        n = T.Net(axes, n.terms, n.cx)
        r = Arr(n, base=None if not axes else s)
        r._key = k
        return r

    def __setitem__(s, k, val):
        if s._through is not None and s._poison == THROUGH:
            # x[k] op= y: the updated view is written back to the region it was taken from
            if s._through is val and val._poison is None and _samekey(val._key, k):
                s._poison = None
            s._through = None
        setitem(s, k, val)


def _norm_key(nd, k):
    if not isinstance(k, tuple): k = (k,)
    out = []
    used = sum(1 for x in k if x is not None and x is not Ellipsis)
    for x in k:
        if x is Ellipsis: out += [slice(None)] * (nd - used)
        else: out.append(x)
    used = sum(1 for x in out if x is not None)
    out += [slice(None)] * (nd - used)
    if used > nd: raise VCFail("index", "too many indices")
    return out


def _bounds(x, d):
    """slice -> (lo, hi) as Polys clipped like numpy; integer -> (i,i+1)"""
    c = C()
    if isinstance(x, slice):
        if x.step is not None and not (isinstance(x.step, int) and x.step == 1): raise Unsupported("slice step")
        lo, hi = x.start, x.stop

        def clip(b, dflt):
            if b is None: return dflt
            b = pint(b)
            bb = SInt.mk(b)
            if bb < 0:
                b = b + d
                if SInt.mk(b) < 0: b = Poly()
            dd = SInt.mk(d)
            if SInt.mk(b) > dd: b = d
            return b
        lo = clip(lo, Poly())
        hi = clip(hi, d)
        if SInt.mk(hi) < SInt.mk(lo): hi = lo
        return lo, hi
    i = pint(x)
    if SInt.mk(i) < 0: i = i + d
    si = SInt.mk(i)
    if not (si >= 0) or not (si < SInt.mk(d)): raise VCFail("index-bounds", "index %s out of range for axis of size %s" % (x, d))
    return i, i + 1


def _index(s, k):
    n = s.v
    ks = _norm_key(len(n.axes), k)
    ax = 0
    drop = set()
    full = True
    pos = 0
    for x in ks:
        if x is None:
            n = T.Net(n.axes[:pos] + ((),) + n.axes[pos:], n.terms, n.cx)
            pos += 1
            continue
        if isinstance(x, (list, _np.ndarray)): raise Unsupported("fancy index")
        if isinstance(x, Arr): raise Unsupported("index by array")
        d = pint(n.shape()[pos])
        lo, hi = _bounds(x, d)
        if not (lo.iszero() and (hi == d or deq(hi, d))):
            full = False
            n = T.slice_axis(n, pos, lo, hi)
        if not isinstance(x, slice): drop.add(pos)
        pos += 1
    return n, drop, None, full


def setitem(s, k, val):
    if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Mask): k = k[0]
    if isinstance(k, Mask):
        d = decided(k)
        if d is None or s.ndim != 1 or not deq(pint(s.shape[0]), pint(k.arr.shape[0])): raise Unsupported("masked assignment")
        if d:
            r = toarr(val)
            if r.ndim == 0: r = Arr(T.scale(T.ones(s.shape, r.v.cx), aspoly(r)))
            if not deq(pint(r.shape[0]), pint(s.shape[0])): raise VCFail("setitem-shape", "masked assignment of another length")
            if r.v.cx and not s.v.cx: r = Arr(_realpart(r.v))
            s._set(T.Net(r.v.axes, r.v.terms, s.v.cx))
        return
    if isinstance(k, SmallMask):
        # entries below a threshold of the size of the rounding error are set to zero: the identity in exact arithmetic
        if not (isconcrete(val) and val == 0) or k.a.a is not s: raise Unsupported("masked assignment")
        C().assumptions.add("entries below %g (rounding level) set to zero are treated as zero" % k.t)
        return
    n = s._v if s._pend else s.v if not s._poison or not s._poison.startswith("slab") else s._v
    ks = _norm_key(len(n.axes), k)
    if any(x is None for x in ks): raise Unsupported("newaxis in assignment")
    c = C()
    if c is not None and c.family and s.serial <= c.family[-1].serial:
        # element-wise loop: the index along one axis is the loop variable; the writes are collected and performed at once
        f = c.family[-1]
        hit = [a for a, x in enumerate(ks) if isinstance(x, SInt) and x.poly == pint(f.index)]
        if len(hit) != 1: raise Unsupported("assignment inside a summarised loop that is not a slab of the loop index")
        if any(isinstance(x, SInt) and any(q == f.sym for q in x.poly.atoms()) for a, x in enumerate(ks) if a != hit[0]): raise Unsupported("slab assignment")
        _bounds(ks[hit[0]], pint(n.shape()[hit[0]]))
        V = toarr(val)
        want = sum(1 for x in ks if isinstance(x, slice))
        if V.ndim not in (0, want): raise Unsupported("broadcasting slab assignment")
        f.slabs.append((s, ks, hit[0], V.v))
        s._poison = "slab writes in a summarised loop"
        return
    shp = [pint(x) for x in n.shape()]
    bs = [_bounds(x, d) for x, d in zip(ks, shp)]
    vshape = [SInt.mk(hi - lo) for x, (lo, hi) in zip(ks, bs) if isinstance(x, slice)]
    V = toarr(val)
    if V.ndim and not vshape and all(deq(pint(d), T.ONE) for d in V.shape): V = reshape(V, ())      # one-element array into one entry
    if V.ndim == 0 and vshape:
        V = Arr(T.scale(T.ones(vshape, V.v.cx), aspoly(V)))
    if V.ndim != len(vshape): raise Unsupported("broadcasting assignment")
    for a, b in zip(V.shape, vshape):
        if not deq(pint(a), pint(b)):
            if C().branch(C().z(pint(a)) == C().z(pint(b))): raise Unsupported("assignment shape coincidence")
            raise VCFail("setitem-shape", "cannot assign %s into %s" % (V.shape, vshape))
    vn = V.v
    if vn.cx and not n.cx:
        vn = _realpart(vn)
    # re-insert dropped axes
    axes = []
    it = iter(vn.axes)
    for x in ks: axes.append(next(it) if isinstance(x, slice) else ())
    vn = T.Net(tuple(axes), vn.terms, vn.cx)
    allfull = True
    for a, ((lo, hi), d) in enumerate(zip(bs, shp)):
        if lo.iszero() and deq(hi, d): continue
        allfull = False
        vn = T.embed_axis(vn, a, lo, d)
    if allfull:
        s._set(T.Net(vn.axes, vn.terms, n.cx))
        return
    if n.terms and not s._pend:
        # the region must currently be zero (otherwise the whole array has to be overwritten block by block)
        cur = n
        for a, ((lo, hi), d) in enumerate(zip(bs, shp)):
            if not (lo.iszero() and deq(hi, d)): cur = T.slice_axis(cur, a, lo, hi)
        if T.rewrite(cur).terms:
            s._set(n)
            s._pend = [(bs, vn)]
            return
    if s._pend:
        s._pend.append((bs, vn))
        return
    if False:
        cur = n
        for a, ((lo, hi), d) in enumerate(zip(bs, shp)):
            if not (lo.iszero() and deq(hi, d)): cur = T.slice_axis(cur, a, lo, hi)
        if T.rewrite(cur).terms: raise Unsupported("overwriting a non-zero block")
    s._set(T.Net(*_sum(n, vn, n.cx)))


def _materialise(s):
    """an array whose old content is overwritten block by block: the blocks must tile it along one axis"""
    pend, s._pend = s._pend, []
    n = s._v
    shp = [pint(x) for x in n.shape()]
    part = {a for bs, _ in pend for a, (lo, hi) in enumerate(bs) if not (lo.iszero() and deq(hi, shp[a]))}
    tot = None
    if len(part) == 1:
        a = part.pop()
        todo = [(bs[a][0], bs[a][1], v) for bs, v in pend]
        pos = Poly()
        while todo:
            nx = [x for x in todo if deq(x[0], pos)]
            if len(nx) != 1: break
            todo.remove(nx[0])
            pos = nx[0][1]
            tot = nx[0][2] if tot is None else T.add(tot, nx[0][2])
        if todo or not deq(pos, shp[a]): tot = None
    if tot is None:
        # the blocks do not tile the array: each one replaces the part of the array it covers
        tot = n
        for bs, v in pend:
            old = tot
            for a, (lo, hi) in enumerate(bs):
                if not (lo.iszero() and deq(hi, shp[a])): old = T.slice_axis(old, a, lo, hi)
            for a, (lo, hi) in enumerate(bs):
                if not (lo.iszero() and deq(hi, shp[a])): old = T.embed_axis(old, a, lo, shp[a])
            tot = T.add(T.add(tot, T.scale(old, -1)), v)
    s._v = T.Net(tot.axes, tot.terms, n.cx)


def lift(n, sy, lo, hi, at):
    """value depending on an index sy (only through tensor slots) -> value with a new axis at position `at` for sy = lo..hi-1"""
    at_ = Poly({((sy, 1),): G(1)})
    k = T.newid(hi - lo)
    terms = []
    one = hi - lo == T.ONE
    for c, fs in n.terms:
        if sy in c.atoms(): raise Unsupported("coefficient depends on the loop index")
        new = []
        for f in fs:
            if f.par is not None and any(sy in q.atoms() for q in f.par): raise Unsupported("block offset depends on the loop index")
            sl2 = []
            for sl in f.slots:
                t = []
                for i, o in sl:
                    if sy in o.atoms():
                        d = o - at_
                        if sy in d.atoms() or not (T.DIM[i] == T.ONE): raise Unsupported("slot offset")
                        t.append((k, d + lo))
                    else: t.append((i, o))
                sl2.append(tuple(t))
            new.append(T.Fac(f.sym, f.conj, tuple(sl2), f.par))
        terms.append((c, new))
    axes = list(n.axes)
    axes.insert(at, (k,))
    return T.Net(tuple(axes), terms, n.cx)


def _sum(a, b, cx):
    r = T.add(a, b)
    return r.axes, r.terms, cx


# conversions ------------------------------------------------------------------------------------------------
def toarr(x):
    if isinstance(x, Arr): return x
    if isinstance(x, Poly): return Arr(T.scalar(x))
    if isinstance(x, SInt): return Arr(T.scalar(x.poly))
    if isinstance(x, (int, float, complex, _np.generic, Fraction)): return Arr(T.scalar(Poly.const(_num(x))))
    if isinstance(x, _np.ndarray): return from_dense(x)
    if isinstance(x, (list, tuple)):
        return from_dense(_np.array(x))
    raise Unsupported("array of %s" % type(x))


def from_dense(a):
    """concrete array -> Net; supported: all axes of length one, constant arrays, identities, anything else as an
    opaque constant keyed by its entries"""
    if a.dtype == object:
        flat = [Poly.const(x) for x in a.ravel()]
        cx = any(any(at.kind == "c" for at in p.atoms()) or any(c.b != 0 for c in p.t.values()) for p in flat)
    else:
        flat = [Poly.const(_num(x)) for x in a.ravel().tolist()]
        cx = a.dtype.kind == "c"
    if all(p == flat[0] for p in flat):
        return Arr(T.scale(T.ones(a.shape, cx), flat[0]) if not flat[0].iszero() else T.zeros(a.shape, cx))
    if a.ndim == 2 and a.shape[0] == a.shape[1] and all(p.iszero() == (i // a.shape[0] != i % a.shape[0]) for i, p in enumerate(flat)) \
            and all(flat[i * (a.shape[0] + 1)] == flat[0] for i in range(a.shape[0])):
        return Arr(T.scale(T.eye(a.shape[0], cx=cx), flat[0]))
    nm = "const(%s;%s)" % (a.shape, ",".join(map(str, flat)))
    return Arr(T.symbol(nm, a.shape, cx))


def aspoly(x):
    """scalar -> Poly; a closed network becomes (once per canonical form) a fresh scalar atom"""
    if isinstance(x, Arr):
        n = T.rewrite(x.v)
        if n.axes and any(n.axes): raise Unsupported("array used as a scalar")
        tot = Poly()
        for c, fs in n.terms:
            if not fs: tot = tot + c
            else: tot = tot + c * closed_atom(fs, n.cx)
        return tot
    return Poly.const(x)


def closed_atom(fs, cx):
    k = T.term_key((), fs)
    # a network and its complex conjugate are the conjugate atoms
    kc = T.term_key((), [f.cj() for f in fs])
    if k == kc: return Poly.atom("<" + k + ">", "r")
    if k < kc: return Poly.atom("<" + k + ">", "c")
    return Poly.atom("<" + kc + ">", "c").conj()


def _isreal(n):
    for c, fs in n.terms:
        if c.conj() != c: return False
        for f in fs:
            if f.conj or (f.sym not in (T.DELTA, "\0inj") and not T.TSym.reg[f.sym].real): return False
    return True


def _realpart(n):
    if _isreal(n): return T.Net(n.axes, n.terms, False)
    m = T.conj(n)
    h = Fraction(1, 2)
    r = T.collect(T.Net(n.axes, [(c * h, f) for c, f in n.terms + m.terms], False))
    return T.Net(r.axes, r.terms, False)


def real(x):
    if isconcrete(x): return _np.real(x)
    x = toarr(x)
    return Arr(_realpart(x.v))


def imag(x):
    if isconcrete(x): return _np.imag(x)
    x = toarr(x)
    n = x.v
    m = T.conj(n)
    k = Poly.const(G(0, Fraction(-1, 2)))
    r = T.collect(T.Net(n.axes, [(c * k, f) for c, f in n.terms] + [(-c * k, f) for c, f in m.terms], False))
    return Arr(T.Net(r.axes, r.terms, False))


def conj(x):
    if isconcrete(x): return _np.conj(x)
    if isinstance(x, SInt): return x
    if isinstance(x, Poly): return x.conj()
    x = toarr(x)
    return Arr(T.conj(x.v), scalar=x.scalar)


def _addsub(a, b, sgn):
    b = toarr(b)
    if b.ndim == 0 and a.ndim:
        if not T.rewrite(b.v).terms: return Arr(a.v)
        b = Arr(T.scale(T.ones(a.shape, b.v.cx), aspoly(b)))
    if a.ndim == 0 and b.ndim:
        if not T.rewrite(a.v).terms: return Arr(T.scale(b.v, sgn))
        a = Arr(T.scale(T.ones(b.shape, a.v.cx), aspoly(a)))
    n1, n2 = a.v, b.v
    if len(n1.axes) != len(n2.axes): raise Unsupported("broadcasting sum")
    for i in range(len(n1.axes)):
        d1, d2 = pint(n1.shape()[i]), pint(n2.shape()[i])
        if d1 == d2: continue
        if d1 == T.ONE or d2 == T.ONE:
            if C() and (deq(d1, d2)): continue
            raise Unsupported("broadcasting sum %s + %s" % (n1.shape(), n2.shape()))
    n2 = T.scale(n2, sgn)
    return Arr(T.add(n1, n2))


def _mul(a, b):
    b = toarr(b)
    n1, n2 = a.v, b.v
    if len(n1.axes) == 0 or len(n2.axes) == 0:
        big, small = (n1, n2) if len(n2.axes) == 0 else (n2, n1)
        lab = list(range(len(big.axes)))
        return Arr(T.einsum([big, small], [lab, []], lab))
    r = max(len(n1.axes), len(n2.axes))
    l1 = list(range(r - len(n1.axes), r))
    l2 = list(range(r - len(n2.axes), r))
    s1 = dict(zip(l1, n1.shape()))
    s2 = dict(zip(l2, n2.shape()))
    ins1 = [("x", i) if (i in s2 and pint(s1[i]) == T.ONE and pint(s2[i]) != T.ONE) else i for i in l1]
    ins2 = [("y", i) if (i in s1 and pint(s2[i]) == T.ONE and pint(s1[i]) != T.ONE) else i for i in l2]
    return Arr(T.einsum([n1, n2], [ins1, ins2], list(range(r))))


def inverse_elem(a):
    """elementwise reciprocal"""
    if a.ndim == 0: return Arr(T.scalar(_nz(aspoly(a)).inv())) if len(aspoly(a).t) == 1 else Arr(T.scalar(_invsum(aspoly(a))))
    n = T.rewrite(a.v)
    if len(n.terms) != 1: raise Unsupported("reciprocal of a sum")
    coef, fs = n.terms[0]
    c = C()
    if len(n.axes) == 1 and posvec(n):
        out = []
        for f in fs:
            k = ("posinv", f.sym)
            if k not in c.data:
                nm = "1/" + f.sym
                d = SInt.mk(T.DIM[f.slots[0][0][0]])
                r = T.symbol(nm, (d,), False)
                c.data["posvec"].add(nm)
                T.add_rule(nm, T.einsum([r, T.symbol(f.sym, (d,), False)], [["k"], ["k"]], ["k"]), T.ones((d,)))
                c.data[k], c.data[("posinv", nm)] = nm, f.sym
            out.append(T.Fac(c.data[k], False, f.slots, f.par))
        return Arr(T.Net(n.axes, [(coef.inv(), out)], n.cx))
    k = ("inv", T.key(n))
    if k not in c.data:
        nm = c.fresh("inv")
        r = T.symbol(nm, _full(n), n.cx)
        c.assumptions.add("entries inverted elementwise are non-zero")
        lab = list(range(len(n.axes)))
        T.add_rule(nm, T.einsum([r, n], [lab, lab], lab), T.ones(n.shape(), n.cx))
        c.data[k] = r
    return Arr(c.data[k])


def _full(n):
    return tuple(tuple(SInt.mk(T.DIM[i]) for i in a) for a in n.axes)


def _nz(p):
    if p.iszero(): raise VCFail("division-by-zero", "division by zero")
    c = C()
    if not p.is_const():
        c.assumptions.add("scalars divided by are non-zero (norms of non-zero tensors, user supplied divisors)")
    return p


def _invsum(p):
    c = C()
    k = ("inv", p)
    if k not in c.data:
        c.data[k] = Poly.atom("inv(%s)" % p, "r" if p.conj() == p else "c")
    return c.data[k]


def _div(a, b):
    b = toarr(b)
    if b.ndim and all(deq(pint(d), T.ONE) for d in b.shape):
        b0 = reshape(b, ())
        r = _div(a, b0)
        if not isinstance(a, Arr) or a.ndim == 0: r = reshape(r, b.shape)
        elif a.ndim < b.ndim: raise Unsupported("broadcast")
        return r
    if b.ndim == 0:
        p = _nz(aspoly(b))
        return Arr(T.scale(a.v, p.inv() if len(p.t) == 1 else _invsum(p)), scalar=a.scalar)
    return _mul(a, inverse_elem(b))


def zreal(p):
    """z3 Real for a real scalar polynomial: one variable per monomial (linear abstraction), positivity of known atoms"""
    c = C()
    tot = z3.RealVal(0)
    for m, cf in p.t.items():
        if cf.b != 0: raise Unsupported("comparison of complex numbers")
        v = z3.RealVal(1)
        if m:
            k = ("zr", m)
            if k not in c.data:
                c.data[k] = z3.Real("R(%s)" % Poly({m: G(1)}))
                if all((a in c.posatoms) or e % 2 == 0 or (a.kind == "i" and a.name.startswith("|")) for a, e in m):
                    c.assume(c.data[k] > 0)
            v = c.data[k]
        fr = Fraction(cf.a)
        tot = tot + z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) * v
    return tot


def compare(a, b, op):
    p = aspoly(a) - aspoly(b)
    if op in ("==", "!=") and p.conj() != p:
        r = opaque_bool("zero?(%s)" % p)
        return r if op == "==" else ~r
    if p.is_const():
        v = p.value()
        return {"<": lambda: v < 0, "<=": lambda: v <= 0, ">": lambda: v > 0, ">=": lambda: v >= 0, "==": lambda: v == 0, "!=": lambda: v != 0}[op]()
    z = zreal(p)
    return SBool({"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[op])


# numpy functions ------------------------------------------------------------------------------------------------
def shape(x):
    if isinstance(x, Arr): return x.shape
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], Arr): raise Unsupported("shape of list")
    return _np.shape(x)


def transpose(x, axes=None):
    if not isinstance(x, Arr): return _np.transpose(x, axes)
    if axes is None: return x.T
    axes = tuple(int(a) for a in axes)
    if sorted(a % x.ndim for a in axes) != list(range(x.ndim)): raise VCFail("transpose-axes", "axes %s do not match rank %d" % (axes, x.ndim))
    return Arr(T.transpose(x.v, tuple(a % x.ndim for a in axes)), base=x)


def reshape(x, shp, order="C"):
    if isinstance(shp, (int, SInt)): shp = (shp,)
    if order == "F":
        # Fortran order is C order of the reversed axes
        if not isinstance(x, Arr) and not any(isinstance(d, SInt) for d in shp): return _np.reshape(x, tuple(shp), order="F")
        return transpose(reshape(transpose(toarr(x)), tuple(reversed(tuple(shp)))))
    if order != "C": raise Unsupported("reshape order %s" % order)
    if not isinstance(x, Arr):
        if not any(isinstance(d, SInt) for d in shp): return _np.reshape(x, tuple(shp))
        x = toarr(x)
    for d in shp:
        if not isinstance(d, (int, SInt, _np.integer)): raise VCFail("reshape-type", "non-integer dimension %r" % (d,))
    return Arr(T.reshape(x.v, tuple(shp)), base=x)


def tensordot(a, b, axes=2):
    if not isinstance(a, Arr) and not isinstance(b, Arr): return _np.tensordot(a, b, axes)
    a, b = toarr(a), toarr(b)
    if isinstance(axes, int):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = axes
        ia = [ia] if isinstance(ia, int) else list(ia)
        ib = [ib] if isinstance(ib, int) else list(ib)
    if len(ia) != len(ib): raise VCFail("tensordot-axes", "axes %s %s" % (ia, ib))
    try:
        ia = [range(a.ndim)[i] for i in ia]
        ib = [range(b.ndim)[i] for i in ib]
    except IndexError:
        raise VCFail("tensordot-axes", "axis out of range")
    la = [("a", i) for i in range(a.ndim)]
    lb = [("b", i) for i in range(b.ndim)]
    for n, (i, j) in enumerate(zip(ia, ib)):
        la[i] = ("c", n)
        lb[j] = ("c", n)
    out = [l for l in la if l[0] == "a"] + [l for l in lb if l[0] == "b"]
    return Arr(T.einsum([a.v, b.v], [la, lb], out))


def dot(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr): return _np.dot(a, b)
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0: return _mul(a, b)
    return tensordot(a, b, ([a.ndim - 1], [b.ndim - 2 if b.ndim > 1 else 0]))


def trace(x):
    if not isinstance(x, Arr): return _np.trace(x)
    if x.ndim < 2: raise VCFail("trace-rank", "trace of a rank-%d array" % x.ndim)
    if not deq(pint(x.shape[0]), pint(x.shape[1])): raise Unsupported("trace of a rectangular array")
    rest = list(range(x.ndim - 2))
    return Arr(T.einsum([x.v], [["i", "i"] + rest], rest))


def diag(x):
    if isinstance(x, Arr) and x.ndim == 2 and not deq(*map(pint, x.shape)):
        # diagonal of a rectangular matrix: a vector of the smaller dimension, entries unspecified
        c = C()
        m, n = map(pint, x.shape)
        k = m if T._le(m, n) else n if T._le(n, m) else None
        if k is None: raise Unsupported("diagonal of a matrix of unknown orientation")
        key = ("diag", T.key(x.v))
        if key not in c.data: c.data[key] = T.symbol(c.fresh("diag"), (SInt.mk(k),), x.v.cx)
        return Arr(c.data[key])
    if not isinstance(x, Arr): return _np.diag(x)
    return Arr(T.diag(x.v))


def np_sum(x, axis=None):
    if not isinstance(x, Arr): return _np.sum(x, axis=axis)
    if axis is None:
        if any(deq(pint(d), T.ZERO) for d in x.shape): return Arr(T.scalar(Poly.const(0)))     # sum over nothing
        return Arr(T.einsum([x.v], [list(range(x.ndim))], []))
    ax = axis % x.ndim
    return Arr(T.einsum([x.v], [list(range(x.ndim))], [i for i in range(x.ndim) if i != ax]))


def squeeze(x, axis=None):
    if not isinstance(x, Arr): return _np.squeeze(x)
    n = x.v
    sh = n.shape()
    if axis is not None:
        keep = [i for i in range(len(sh)) if i != axis % len(sh)]
    else:
        for d in sh:
            if isinstance(d, SInt) and not C().implied(core.zint(d) > 1): raise Unsupported("squeeze of a symbolic axis")
        keep = [i for i, d in enumerate(sh) if isinstance(d, SInt) or d != 1]
    return Arr(T.Net(tuple(n.axes[i] for i in keep), n.terms, n.cx), base=x)


def expand_dims(x, axis):
    if not isinstance(x, Arr): return _np.expand_dims(x, axis)
    n = x.v
    r = len(n.axes) + 1
    if isinstance(axis, (tuple, list)): raise Unsupported("expand_dims with several axes")
    axis = axis % r
    return Arr(T.Net(n.axes[:axis] + ((),) + n.axes[axis:], n.terms, n.cx), base=x)


def kron(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr): return _np.kron(a, b)
    a, b = toarr(a), toarr(b)
    if a.ndim != 2 or b.ndim != 2: raise Unsupported("kron")
    t = Arr(T.einsum([a.v, b.v], [[0, 2], [1, 3]], [0, 1, 2, 3]))
    return reshape(t, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


def _symshape(shp):
    if isinstance(shp, (int, SInt, _np.integer)): shp = (shp,)
    return tuple(shp), any(isinstance(d, SInt) for d in shp)


def _cx(dtype):
    if dtype is None: return False
    return _np.dtype(dtype).kind == "c"


def np_zeros(shp, dtype=float, **kw):
    shp, s = _symshape(shp)
    return Arr(T.zeros(shp, _cx(dtype)))


def np_ones(shp, dtype=float, **kw):
    shp, s = _symshape(shp)
    return Arr(T.ones(shp, _cx(dtype)))


def np_eye(d, M=None, dtype=float, **kw):
    return Arr(T.eye(d, M, _cx(dtype)))


def posatom(name):
    p = Poly.atom(name, "r")
    C().posatoms |= p.atoms()
    return p


def abspoly(p):
    """|p| of a scalar"""
    if p.is_const():
        v = p.value()
        a = abs(v)
        return Poly.const(a)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly.const(abs(complex(c.a, c.b)) if c.b != 0 else abs(c.a))
        pos = C().posatoms
        for a, e in m:
            if a in pos or (a.kind == "i" and a.name.startswith("|")): r = r * Poly({((a, e),): G(1)})
            else:
                r = r * absatom(a) ** e
        return r
    nm = "abs(%s)" % p
    return posatom(nm)


def absatom(a):
    """|a| of an atom, with |a|^2 = a conj(a)"""
    q = posatom("abs(%s)" % a.name)
    one = Poly({((a, 1),): G(1)})
    C().data.setdefault("sq", {}).setdefault("abs(%s)" % a.name, one * one.conj())
    return q


def sqrtpoly(p):
    """sqrt of a non-negative real scalar"""
    if p.is_const():
        v = p.value()
        if isinstance(v, complex) or v < 0: raise Unsupported("sqrt of %s" % v)
        f = Fraction(v)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator: return Poly.const(Fraction(n, d))
        return sq_atom(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        ok = c.b == 0 and c.a > 0
        exps = dict(m)
        rr = Poly.const(1)
        for a, e in m:
            if a.kind == "c":
                cj = a._replace(conj=not a.conj)
                if exps.get(cj) != e: ok = False
                elif not a.conj and ok: rr = rr * absatom(a) ** e
            elif e % 2: ok = False
            elif ok: rr = rr * abspoly(Poly({((a, 1),): G(1)})) ** (e // 2)
        if ok: return rr * sqrtpoly(Poly.const(c.a))
        odd = [(a, e) for a, e in m if e % 2]
        if c.b == 0 and c.a > 0 and len(odd) == 1 and odd[0][0].kind == "r" and odd[0][1] != 1 and all(a.kind != "c" for a, e in m):
            (a, e), = odd          # a >= 0 where the root exists
            one = Poly({((a, 1),): G(1)})
            return sqrtpoly(p * one ** (1 - e)) * one ** ((e - 1) // 2)
    return sq_atom(p)


def rootpoly(p, n):
    """p ** n of a positive scalar for a fractional (possibly symbolic) exponent"""
    if p == T.ONE: return p
    for q, e, r in C().data.get("roots", ()):
        if q != p: continue
        if isinstance(n, Poly) and n == e: return r
        if not isinstance(n, Poly) and e.is_const() and abs(float(n) - float(e.value())) < 1e-12: return r
    if not isinstance(n, Poly) and float(n) == 0.5: return sqrtpoly(p)
    if not all(a in C().posatoms for m in p.t for a, e in m): raise Unsupported("fractional power of a scalar of unknown sign")
    return posatom("pow(%s,%s)" % (p, n))


def sq_atom(p):
    c = C()
    k = ("sqrt", p)
    if k not in c.data:
        nm = "sqrt(%s)" % p
        c.data[k] = posatom(nm)
        c.data.setdefault("sq", {})[nm] = p
    return c.data[k]


def np_abs(x):
    if isconcrete(x): return _np.abs(x)
    if isinstance(x, SInt): return abs(x)
    if isinstance(x, _np.ndarray): return _np.abs(x)
    if x.ndim == 0: return Arr(T.scalar(abspoly(aspoly(x))))
    if x.ndim == 1 and posvec(x.v): return Arr(x.v)
    return AbsArr(x)


class AbsArr:
    """elementwise modulus of an array: only comparable with a threshold"""
    def __init__(s, a): s.a = a
    def __lt__(s, t): return SmallMask(s, t)
    def __gt__(s, t):
        if all(deq(pint(d), T.ONE) for d in s.a.shape): return opaque_bool("abs(%s) > %s" % (s.a.serial, t))
        raise Unsupported("elementwise comparison")
    __ge__ = __gt__
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("elementwise abs")


class SmallMask:
    def __init__(s, a, t):
        if isinstance(t, (Arr, SInt, Poly)) or not t <= 1e-8: raise Unsupported("elementwise threshold %s" % t)
        s.a, s.t = a, t


class Phase:
    """np.angle of a vector, times a real sign and possibly -1j"""
    def __init__(s, a, c=1): s.a, s.c = a, c
    def __rmul__(s, k): return Phase(s.a, s.c * k)
    __mul__ = __rmul__
    def __neg__(s): return Phase(s.a, -s.c)
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("phase vector.%s" % k)


def np_angle(x):
    if isconcrete(x): return _np.angle(x)
    if toarr(x).ndim > 1: raise Unsupported("np.angle of rank %d" % toarr(x).ndim)
    return Phase(x)


def phase_exp(ph):
    """exp(+-1j*angle(v)): a vector of unit modulus"""
    if ph.c not in (1j, -1j): raise Unsupported("exp of a real phase")
    c = C()
    if toarr(ph.a).ndim == 0:          # exp(i arg p) = p/|p|
        p = aspoly(toarr(ph.a))
        q = p * abspoly(p).inv()
        return Arr(T.scalar(q if ph.c == 1j else q.conj()))
    k = ("phase", T.key(ph.a.v))
    if k not in c.data:
        nm = c.fresh("phase")
        u = T.symbol(nm, _full(T.rewrite(ph.a.v)), True)
        T.add_rule("|exp(i phi)|=1", T.einsum([u, T.conj(u)], [["a"], ["a"]], ["a"]), T.ones(ph.a.shape, True))
        c.data[k] = u
        c.assumptions.add("np.exp(1j*np.angle(v)) has unit modulus")
    u = c.data[k]
    return Arr(u if ph.c == 1j else T.conj(u))


def np_sign(x):
    if isconcrete(x): return _np.sign(x)
    x = toarr(x)
    c = C()
    if x.v.cx: raise Unsupported("sign of complex values")
    k = ("sign", T.key(x.v))
    if k not in c.data:
        nm = c.fresh("sign")
        u = T.symbol(nm, _full(T.rewrite(x.v)), False)
        lab = list(range(x.ndim))
        T.add_rule("sign^2=1", T.einsum([u, u], [lab, lab], lab), T.ones(x.shape, False))
        c.data[k] = u
        c.assumptions.add("np.sign of values that do not vanish")
    return Arr(c.data[k])


def np_sqrt(x):
    if isconcrete(x):
        p = sqrtpoly(Poly.const(x))
        return p.value() if p.is_const() else Arr(T.scalar(p))
    if isinstance(x, (list, tuple)) or (isinstance(x, _np.ndarray)): return _np.sqrt(x)
    if isinstance(x, (SInt, Poly)) or x.ndim == 0:
        c = C()
        n = T.rewrite(toarr(x).v)
        # sqrt of a Hermitian square  tr(M M^+)  is the Frobenius norm of M
        p = aspoly(toarr(x))
        r = Arr(T.scalar(sqrtpoly(p)))
        if len(n.terms) == 1 and n.terms[0][1]:
            coef, fs = n.terms[0]
            k = ("sqrtrule", T.term_key((), fs))
            if k not in c.data:
                c.data[k] = True
                at = sq_atom(Poly.const(1) * closed_atom(fs, n.cx))
                T.add_rule("sqrt", T.Net((), [(Poly.const(1), fs)], n.cx), T.scalar(at * at))
            at = sq_atom(closed_atom(fs, n.cx))
            return Arr(T.scalar(sqrtpoly(coef) * at))
        return r
    n = T.rewrite(x.v)
    c = C()
    if len(n.axes) == 1 and posvec(n):
        cf, fs = n.terms[0]
        names = sorted(f.sym for f in fs)
        if all(f.slots == fs[0].slots for f in fs) and len(names) % 2 == 0 and names[::2] == names[1::2]:
            srt = sorted(fs, key=lambda f: f.sym)
            return Arr(T.Net(n.axes, [(sqrtpoly(cf), srt[::2])], n.cx))
    k = ("sqrtv", T.key(n))
    if k not in c.data:
        nm = c.fresh("sqrtv")
        r = T.symbol(nm, _full(n), n.cx)
        lab = list(range(len(n.axes)))
        T.add_rule(nm, T.einsum([r, r], [lab, lab], lab), n)
        c.data[k] = r
    return Arr(c.data[k])


def norm(x, *a, **k):
    """Frobenius norm"""
    if a or k: raise Unsupported("norm with ord")
    if not isinstance(x, Arr): return _np.linalg.norm(x)
    lab = list(range(x.ndim))
    sq = Arr(T.einsum([x.v, T.conj(x.v)], [lab, lab], []))
    r = np_sqrt(sq)
    p = aspoly(r)
    C().posatoms |= {a for a in p.atoms() if a.kind == "r"}
    q = aspoly(sq)
    if len(q.t) == 1 and all(a.kind == "r" for a in q.atoms()) and len(q.atoms()) == 1: C().posatoms |= q.atoms()
    return r


def mask_select(s, k):
    """S[S>thr] for a non-increasing vector S: a prefix of unknown length"""
    c = C()
    nm = "desc:" + T.key(T.Net(k.arr.v.axes, k.arr.v.terms, k.arr.v.cx))
    if not c.data.get(("descending", _onesym(k.arr.v))): raise Unsupported("boolean mask on an unsorted vector")
    if s is not k.arr and T.key(s.v) != T.key(k.arr.v): raise Unsupported("mask of another array")
    if k.op not in (">", ">="): raise Unsupported("mask %s" % k.op)
    return Arr(T.slice_axis(s.v, 0, Poly(), pint(mask_count(k))))


def count_nonzero(k):
    if not isinstance(k, Mask): raise Unsupported("count_nonzero")
    if not C().data.get(("descending", _onesym(k.arr.v))): raise Unsupported("boolean mask on an unsorted vector")
    if k.op not in (">", ">="): raise Unsupported("mask %s" % k.op)
    return mask_count(k)


def mask_count(k):
    c = C()
    nm = "desc:" + T.key(T.Net(k.arr.v.axes, k.arr.v.terms, k.arr.v.cx))
    d = pint(k.arr.shape[0])
    key = ("count", nm, k.op, str(k.thr) if not isinstance(k.thr, Arr) else str(aspoly(k.thr)))
    if key not in c.data:
        cnt = SInt(Poly.atom(c.fresh("kept"), "i"))
        c.assume(core.zint(cnt) >= 0)
        c.assume(core.zint(cnt) <= c.z(d))
        c.data[key] = cnt
        c.data.setdefault("kept", []).append((cnt, k.thr, d))
        c.data.setdefault("kept_of", []).append(Arr(k.arr.v))
        hook = c.data.get("onkept")
        if hook: hook(cnt, k.thr, d)
    return c.data[key]


def _onesym(n):
    if len(n.terms) == 1 and len(n.terms[0][1]) == 1: return n.terms[0][1][0].sym
    return None


# linear algebra with assumed contracts ---------------------------------------------------------------------------
def _mat(a):
    if not isinstance(a, Arr): raise Unsupported("linear algebra on a concrete array")
    if a.ndim != 2: raise VCFail("linalg-rank", "matrix expected, got rank %d" % a.ndim)
    n = T.rewrite(a.v)
    return n


def _min_dim(c, m, n, base):
    if deq(m, n): return SInt.mk(m)
    if m == T.ONE or n == T.ONE: return 1
    k = core.dim(c.fresh(base))
    zk, zm, zn = core.zint(k), c.z(m), c.z(n)
    c.assume(z3.And(zk <= zm, zk <= zn, z3.Or(zk == zm, zk == zn)))
    return k


def _p(x): return T.ONE if False else pint(x)


def lin_qr(a, mode="reduced"):
    if mode not in ("reduced", "economic"): raise Unsupported("qr mode")
    c = C()
    n = _mat(a)
    m_, n_ = map(pint, n.shape())
    k = _min_dim(c, m_, n_, "Kq")
    rows, cols = _full(n)
    nm = c.fresh("qr")
    q = T.symbol("Q" + nm, rows_flat(rows) + (k,), n.cx)
    q = group(q, [len(rows), 1])
    r = T.symbol("R" + nm, (k,) + rows_flat(cols), n.cx)
    r = group(r, [1, len(cols)])
    T.add_rule("Q+Q=1", T.einsum([q, T.conj(q)], [["a", "k"], ["a", "l"]], ["k", "l"]), T.eye(k, cx=n.cx))
    T.add_rule("QR=A", T.einsum([q, r], [["a", "k"], ["k", "b"]], ["a", "b"]), n)
    c.assumptions.add("numpy.linalg.qr: A=QR, Q has orthonormal columns, reduced shapes")
    c.data[("qr", nm)] = (q, r)
    return Arr(q), Arr(r)


def rows_flat(g): return tuple(g)


def group(n, sizes):
    """regroup leading single-leg axes: sizes of consecutive groups"""
    axes = []
    p = 0
    for s_ in sizes:
        g = ()
        for a in n.axes[p:p + s_]: g += a
        axes.append(g)
        p += s_
    return T.Net(tuple(axes), n.terms, n.cx)


def lin_svd(a, full_matrices=True, **kw):
    c = C()
    n = _mat(a)
    for h in c.data.get("svd_hooks", ()):
        r = h(n)
        if r is not None: return r
    if c.data.get("svd_may_fail") and not c.data.get("svd_failed"):
        if c.choose(2, "svd does not converge"):
            c.data["svd_failed"] = True
            raise _np.linalg.LinAlgError("SVD did not converge")
    m_, n_ = map(pint, n.shape())
    k = _min_dim(c, m_, n_, "Ks")
    rows, cols = _full(n)
    nm = c.fresh("svd")
    u = group(T.symbol("U" + nm, rows + (k,), n.cx), [len(rows), 1])
    s = T.symbol("S" + nm, (k,), False)
    v = group(T.symbol("V" + nm, (k,) + cols, n.cx), [1, len(cols)])
    T.add_rule("U+U=1", T.einsum([u, T.conj(u)], [["a", "k"], ["a", "l"]], ["k", "l"]), T.eye(k, cx=n.cx))
    T.add_rule("VV+=1", T.einsum([v, T.conj(v)], [["k", "a"], ["l", "a"]], ["k", "l"]), T.eye(k, cx=n.cx))
    T.add_rule("USV=A", T.einsum([u, s, v], [["a", "k"], ["k"], ["k", "b"]], ["a", "b"]), n)
    if c.data.get("svd_projection"):
        T.add_rule("U+A=SV", T.einsum([T.conj(u), n], [["a", "k"], ["a", "b"]], ["k", "b"]), T.einsum([s, v], [["k"], ["k", "b"]], ["k", "b"]))
    c.data[("descending", "S" + nm)] = True
    c.data.setdefault("svds", []).append(nm)
    c.assumptions.add("numpy.linalg.svd: A=U diag(S) V, isometric U and V, S non-negative and non-increasing")
    if full_matrices:
        # square unitary factors: the rows/columns beyond the rank space are an unspecified completion
        kk = pint(k)
        if not deq(kk, m_):
            w = T.embed_axis(group(T.symbol("Uc" + nm, rows + (SInt.mk(m_ - kk),), n.cx), [len(rows), 1]), 1, kk, m_)
            u = T.add(T.embed_axis(u, 1, Poly(), m_), w)
        if not deq(kk, n_):
            w = T.embed_axis(group(T.symbol("Vc" + nm, (SInt.mk(n_ - kk),) + cols, n.cx), [1, len(cols)]), 0, kk, n_)
            v = T.add(T.embed_axis(v, 0, Poly(), n_), w)
    return Arr(u), Arr(s), Arr(v)


def lin_eigh(a, **kw):
    c = C()
    n = _mat(a)
    for h in c.data.get("eigh_hooks", ()):
        r = h(n)
        if r is not None: return r
    d = _full(n)[0]
    nm = c.fresh("eigh")
    u = group(T.symbol("E" + nm, d + (SInt.mk(pint(n.shape()[0])),), n.cx), [len(d), 1])
    w = T.symbol("w" + nm, (SInt.mk(pint(n.shape()[0])),), False)
    k = n.shape()[0]
    T.add_rule("E+E=1", T.einsum([u, T.conj(u)], [["a", "k"], ["a", "l"]], ["k", "l"]), T.eye(k, cx=n.cx))
    T.add_rule("EE+=1", T.einsum([u, T.conj(u)], [["a", "k"], ["b", "k"]], ["a", "b"]), T.eye(k, cx=n.cx))
    T.add_rule("EwE+=A", T.einsum([u, w, T.conj(u)], [["a", "k"], ["k"], ["b", "k"]], ["a", "b"]), n)
    c.assumptions.add("numpy.linalg.eigh: A=E diag(w) E^+, E unitary (argument hermitian)")
    return Arr(w), Arr(u)


def lin_inv(a, *r, **kw):
    c = C()
    n = _mat(a)
    if len(n.terms) != 1: raise Unsupported("inverse of a sum")
    k = ("matinv", T.key(n))
    if k not in c.data:
        nm = c.fresh("inv")
        rows, cols = _full(n)
        i = group(T.symbol(nm, cols + rows, n.cx), [len(cols), len(rows)])
        T.add_rule("A^-1A=1", T.einsum([i, n], [["a", "b"], ["b", "c"]], ["a", "c"]), T.eye(n.shape()[1], cx=n.cx))
        T.add_rule("AA^-1=1", T.einsum([n, i], [["a", "b"], ["b", "c"]], ["a", "c"]), T.eye(n.shape()[0], cx=n.cx))
        c.data[k] = i
        c.assumptions.add("numpy.linalg.inv/pinv: two-sided inverse of an invertible matrix")
    return Arr(c.data[k])


def einsum_labels(ts, labels, out):
    return Arr(T.einsum([toarr(t).v for t in ts], labels, out))


def ncon_spec(ts, idx, order=None, forder=None, check_indices=True):
    """contract of ncon (C11): the Einstein sum over positive labels, open legs ordered by -1,-2,...; malformed labels raise"""
    if isinstance(ts, (Arr, _np.ndarray)): ts = [ts]
    ts = list(ts)
    idx = list(idx)
    if not idx or not isinstance(idx[0], (list, tuple)): idx = [idx]
    idx = [list(i) for i in idx]
    if len(ts) != len(idx): raise ValueError("ncon: %d tensors, %d label lists" % (len(ts), len(idx)))
    for t, i in zip(ts, idx):
        if len(shape(t)) != len(i): raise ValueError("ncon: rank %d, labels %s" % (len(shape(t)), i))
    flat = [l for i in idx for l in i]
    neg = sorted({l for l in flat if l < 0}, reverse=True)
    if forder is not None: neg = list(forder)
    for l in set(flat):
        if l > 0 and flat.count(l) != 2: raise ValueError("ncon: contracted label %d occurs %d times" % (l, flat.count(l)))
        if l < 0 and flat.count(l) != 1: raise ValueError("ncon: free label %d occurs %d times" % (l, flat.count(l)))
        if l == 0: raise ValueError("ncon: label 0")
    return einsum_labels(ts, idx, neg)


def isscalar(x):
    if isinstance(x, Arr): return x.scalar
    if isinstance(x, (SInt, Poly)): return True
    return _np.isscalar(x)


def result_type(*xs):
    ys = []
    for x in xs:
        if isinstance(x, Arr): ys.append(x.dtype)
        elif isinstance(x, (SInt,)): ys.append(_np.dtype(int))
        elif isinstance(x, type) and issubclass(x, Arr): ys.append(FLOAT)
        else: ys.append(x)
    return _np.result_type(*ys)


def np_copy(x):
    if isinstance(x, Arr): return Arr(x.v, scalar=x.scalar)
    if isinstance(x, (SInt, Poly)): return x
    return _np.copy(x)


def np_array(x, dtype=None, **kw):
    if isinstance(x, Arr): return Arr(x.v)
    return _np.array(x, dtype=dtype)


def asarray(x, dtype=None):
    if isinstance(x, Arr): return x
    return _np.asarray(x, dtype=dtype)


class _NdMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, Arr) and not o.scalar or isinstance(o, _np.ndarray)
    def __eq__(cls, o): return o is cls or o is Arr
    def __ne__(cls, o): return not (o is cls or o is Arr)
    __hash__ = type.__hash__


class ndarray(metaclass=_NdMeta):
    pass


class Namespace:
    def __init__(s, name, **kw):
        s.__dict__["_name"] = name
        s.__dict__.update(kw)

    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("%s.%s is not modelled" % (s._name, k))


def isfinite_any(x): return True


def make_numpy(dense=False):
    linalg = Namespace("np.linalg", norm=norm, qr=lin_qr, svd=lin_svd, eigh=lin_eigh, inv=lin_inv, pinv=lin_inv,
                       LinAlgError=_np.linalg.LinAlgError, linalg=Namespace("np.linalg.linalg", LinAlgError=_np.linalg.LinAlgError))
    def rnd(*shp, **k):
        shp = shp[0] if len(shp) == 1 and isinstance(shp[0], (tuple, list)) else k.get("size", shp)
        if not isinstance(shp, (tuple, list)): shp = (shp,)
        return Arr(T.symbol(C().fresh("rnd"), tuple(shp), False))
    random = Namespace("np.random", random_sample=rnd, rand=rnd, randn=rnd, random=rnd)
    ns = Namespace("np", linalg=linalg, random=random, ndarray=ndarray, dtype=_np.dtype, float64=_np.float64, complex128=_np.complex128,
                   integer=_np.integer, complexfloating=_np.complexfloating, floating=_np.floating, number=_np.number, generic=_np.generic,
                   issubdtype=_np.issubdtype, pi=math.pi, inf=float("inf"), newaxis=None,
                   shape=shape, transpose=transpose, reshape=reshape, tensordot=tensordot, dot=dot, trace=trace, diag=diag,
                   sum=np_sum, squeeze=squeeze, expand_dims=expand_dims, kron=kron, zeros=np_zeros, ones=np_ones, eye=np_eye, empty=np_zeros,
                   identity=np_eye, abs=np_abs, sqrt=np_sqrt, real=real, imag=imag, conj=conj, conjugate=conj, copy=np_copy,
                   array=np_array, asarray=asarray, isscalar=isscalar, result_type=result_type,
                   iscomplexobj=lambda x: x.dtype.kind == "c" if hasattr(x, "dtype") else _np.iscomplexobj(x),
                   prod=lambda x: _prod(x), max=lambda x: vmax(x), min=lambda x: vmin(x), append=np_append, isnan=lambda x: False,
                   ndim=lambda x: x.ndim if isinstance(x, Arr) else _np.ndim(x), square=lambda x: x * x, negative=lambda x: -x,
                   angle=np_angle, sign=np_sign, count_nonzero=count_nonzero, any=lambda x: x if isinstance(x, (bool, SBool)) else _np.any(x), all=lambda x: x if isinstance(x, (bool, SBool)) else opaque_bool('all(%s)' % x.serial) if isinstance(x, Arr) else None if x is None else _np.all(x),
                   outer=lambda a, b: tensordot(a, b, 0), exp=np_exp, multiply=lambda a, b: a * b, add=lambda a, b: a + b, vdot=vdot, matmul=dot,
                   einsum=np_einsum, nonzero=nonzero, where=nonzero, power=lambda x, n: x ** n, size=lambda x: x.size, atleast_1d=lambda x: x, arange=np_arange, flatnonzero=nonzero)
    return ns


def np_arange(*a):
    if any(isinstance(x, SInt) for x in a): raise Unsupported("arange of symbolic length")
    return _np.arange(*a)


def np_einsum(sub, *ops):
    i, _, o = sub.replace(" ", "").partition("->")
    return einsum_labels(ops, [list(x) for x in i.split(",")], list(o))


def vdot(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim: raise Unsupported("vdot")
    l = list(range(a.ndim))
    return Arr(T.einsum([T.conj(a.v), b.v], [l, l], []))


def np_exp(x):
    if isconcrete(x) and x == 0: return 1.0
    if isinstance(x, Phase): return phase_exp(x)
    x = toarr(x)
    if x.ndim: raise Unsupported("elementwise exp")
    p = aspoly(x)
    return Arr(T.scalar(exppoly(p)))


def exppoly(p):
    """exp of a sum of monomials as a product of atoms e[m]^k"""
    r = Poly.const(1)
    for m, c in p.t.items():
        if not m: raise Unsupported("exp of a constant")
        imag_ = c.a == 0
        if c.a != 0 and c.b != 0: raise Unsupported("exp of a complex multiple")
        q = c.b if imag_ else c.a
        if Fraction(q).denominator != 1: raise Unsupported("exp of a fractional multiple")
        nm = "e[%s%s]" % ("i*" if imag_ else "", Poly({m: G(1)}))
        at = Poly.atom(nm, "r" if not imag_ else "c")
        r = r * at ** int(q)
    return r


def np_append(a, b, axis=None):
    raise Unsupported("np.append")


def _prod(x):
    if isinstance(x, Arr): raise Unsupported("np.prod of an array")
    r = 1
    for y in x: r = r * y
    return r


def vmax(*a):
    if len(a) == 1 and getattr(a[0], "sym", None) is not None and isinstance(a[0].symlen(), SInt):
        x = core.dim(C().fresh("max"))       # maximum of a symbolic-length list of dimensions: some positive integer
        C().data.setdefault("maxima", []).append((x, a[0]))
        return x
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs: raise ValueError("max() of an empty sequence")
    if len(xs) > 2 and any(isinstance(x, SInt) for x in xs) and all(isinstance(x, (SInt, int, _np.integer)) for x in xs):
        c = C()
        m = core.sint(c.fresh("max"))
        zm = core.zint(m)
        zs = [core.zint(x) if isinstance(x, SInt) else z3.IntVal(int(x)) for x in xs]
        c.assume(z3.And(z3.And([zm >= z for z in zs]), z3.Or([zm == z for z in zs])))
        return m
    r = xs[0]
    for x in xs[1:]:
        if x > r: r = x
    return r


def vmin(*a):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs: raise ValueError("min() of an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        if x < r: r = x
    return r
