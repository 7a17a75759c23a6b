"""Mechanical extraction: read a module of /repo, rewrite its loops so that a loop over a symbolic range consults its
invariant, and execute the module against the numpy stand-in.  Nothing else of the source is changed; what is dropped:
printed output, warnings, and the decorators/imports listed in STUBS."""
import ast, builtins, copy as _copy, sys, os, types
import numpy as _np
import z3
from . import core, arr as A, tensor as T
from .core import SInt, SBool, VCFail, PathEnd, pint
from .poly import Poly, Unsupported, G, Sym

REPO = os.environ.get("VERIF_REPO", "/repo")


class Poison:
    """value of a variable about which the loop invariant says nothing"""
    def __init__(s, name): object.__setattr__(s, "_n", name)
    def _bad(s, *a, **k): raise Unsupported("variable '%s' carried out of a loop is not described by its invariant" % object.__getattribute__(s, "_n"))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __call__ = __getitem__ = _bad
    __setitem__ = __iter__ = __len__ = __bool__ = __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = __index__ = _bad
    __iadd__ = __isub__ = __imul__ = _bad
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        s._bad()
    def __deepcopy__(s, m): return s


class SymRange:
    def __init__(s, lo, hi, step=1):
        s.lo, s.hi, s.step, s.elems = lo, hi, step, None
        if not isinstance(step, int) or step == 0: raise Unsupported("range step")

    def count(s):
        """number of iterations of a non-empty range"""
        d = s.hi - s.lo if s.step > 0 else s.lo - s.hi
        if abs(s.step) == 1: return d
        return (d + (abs(s.step) - 1)) // abs(s.step)
    def __iter__(s): raise Unsupported("C-level iteration over a symbolic range")
    def __len__(s): raise Unsupported("len of symbolic range")
    def __reversed__(s):
        if s.step == 1: return SymRange(s.hi - 1, s.lo - 1, -1)
        return SymRange(s.hi + 1, s.lo + 1, 1)


def vrange(*a):
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1: lo, hi, st = 0, a[0], 1
        elif len(a) == 2: lo, hi, st = a[0], a[1], 1
        else: lo, hi, st = a
        n = pint(hi) - pint(lo)
        if n.is_const() and isinstance(st, int): return [lo + k for k in range(0, n.value(), st)]      # a constant number of iterations
        return SymRange(lo, hi, st)
    for x in a:
        if isinstance(x, float): raise VCFail("range-float", "range() of a float")
    return range(*a)


LOG = []          # stack of read logs (lazily evaluated comprehensions)


def lazy(fn):
    """element function of a comprehension, evaluated on demand: refuses if anything it reads changed since its creation"""
    stamp = A.tick()

    def g(p):
        log = []
        LOG.append(log)
        try: r = fn(p)
        finally: LOG.pop()
        for x, v in log:
            if (x._m > stamp and x._born < stamp) or (isinstance(v, A.Arr) and v.version and v._m > stamp):
                raise Unsupported("a list was changed after a comprehension over it was built")
        if LOG: LOG[-1].extend(log)
        return r
    return g


class VList(list):
    """list that may have a symbolic length.  sym: None or dict(base, length, over)"""
    def __init__(s, it=()):
        list.__init__(s, it)
        s._born = A.tick()
        s._m = 0
        s._sym = None

    @property
    def sym(s): return s._sym
    @sym.setter
    def sym(s, x):
        s._sym = x
        s._m = A.tick()

    def _seen(s, v):
        if LOG: LOG[-1].append((s, v))
        return v

    def _mut(name):
        base = getattr(list, name)

        def f(s, *a, **k):
            if s._sym is not None: raise Unsupported("list.%s on a symbolic list" % name)
            c = core.CTX
            if c is not None and c.family: raise Unsupported("list.%s inside a summarised loop" % name)
            s._m = A.tick()
            try: return base(s, *a, **k)
            except (IndexError, ValueError) as e: raise VCFail("list." + name, str(e))
        return f
    for _n in ("pop", "remove", "reverse", "sort", "__delitem__"): locals()[_n] = _mut(_n)
    del _n

    def insert(s, i, v):
        c = core.CTX
        if c is not None and c.family: raise Unsupported("list.insert inside a summarised loop")
        s._m = A.tick()
        if s._sym is None and not isinstance(i, SInt): return list.insert(s, i, v)
        s._tosym()
        old = VList()
        old._sym = s._sym
        n = old.symlen()
        if not (i >= 0): i = vmax(n + i, 0)
        if i > n: i = n
        at = i

        def fn(p):
            q = SInt.mk(p)
            if q == at: return v
            return old[q] if q < at else old[q - 1]
        s.sym = {"fn": lazy(fn), "len": n + 1, "over": [], "cache": {}}

    def extend(s, x):
        for y in x: s.append(y)

    def __iadd__(s, x):
        s.extend(x)
        return s

    @staticmethod
    def family(fn, length, copies=False):
        v = VList()
        v.sym = {"fn": fn, "len": length, "over": [], "cache": {}}
        return v

    def symlen(s): return list.__len__(s) if s.sym is None else s.sym["len"]
    def __len__(s):
        if s.sym is None: return list.__len__(s)
        n = s.sym["len"]
        if isinstance(n, SInt): raise Unsupported("len of a symbolic list at C level")
        return n

    def _idx(s, i):
        n = s.symlen()
        if isinstance(i, int) and i < 0: i = n + i
        elif isinstance(i, SInt):
            if i < 0: i = n + i
        if not (i >= 0) or not (i < n): raise VCFail("index-bounds", "list index %s out of range (length %s)" % (i, n))
        return pint(i)

    def _tosym(s):
        if s.sym is None:
            items = list(list.__iter__(s))
            s._sym = {"fn": lambda p: (_ for _ in ()).throw(Unsupported("no element")), "len": len(items),
                     "over": [(Poly.const(k), v) for k, v in enumerate(items)], "cache": {}}
            list.clear(s)

    def _get(s, p):
        for k, v in reversed(s.sym["over"]):
            if isinstance(k, tuple):
                lo, hi, fn = k
                if _eqbool_in(lo, p, hi): return fn(p)
                continue
            if k == p: return v
            d = k - p
            if d.is_const(): continue
            c = core.CTX
            if c.branch(c.z(k) == c.z(p)): return v
        if p not in s.sym["cache"]: s.sym["cache"][p] = s.sym["fn"](p)
        return s.sym["cache"][p]

    def __getitem__(s, i):
        if isinstance(i, slice):
            if s.sym is None and not any(isinstance(x, SInt) for x in (i.start, i.stop, i.step)):
                return VList(list.__getitem__(s, i))
            n = s.symlen()
            if i.step is not None: raise Unsupported("slice step of a symbolic list")
            lo = 0 if i.start is None else i.start
            hi = n if i.stop is None else i.stop
            if not (lo >= 0): lo = n + lo
            if not (hi >= 0): hi = n + hi
            if hi > n: hi = n
            if lo > hi: lo = hi
            src = s
            pl = pint(lo)
            r = VList.family(lazy(lambda p: src[SInt.mk(p + pl)]), SInt.mk(pint(hi) - pl))
            if not isinstance(r.sym["len"], SInt):
                return VList([s[SInt.mk(pl + k)] for k in range(r.sym["len"])])
            return r
        if s.sym is None and not isinstance(i, SInt):
            if not isinstance(i, (int, _np.integer)): raise VCFail("list-index-type", "list index %r" % (i,))
            try: return s._seen(list.__getitem__(s, i))
            except IndexError: raise VCFail("index-bounds", "list index %s out of range (length %s)" % (i, list.__len__(s)))
        if s.sym is None: s._tosym()
        return s._seen(s._get(s._idx(i)))

    def __setitem__(s, i, v):
        if isinstance(i, slice):
            s._m = A.tick()
            if s.sym is None: return list.__setitem__(s, i, v)
            raise Unsupported("slice assignment to symbolic list")
        s._m = A.tick()
        c = core.CTX
        if c is not None and c.family: raise Unsupported("list element assigned inside a summarised loop")
        if s.sym is None and not isinstance(i, SInt):
            try: return list.__setitem__(s, i, v)
            except IndexError: raise VCFail("index-bounds", "list assignment index %s out of range (length %s)" % (i, list.__len__(s)))
        if s.sym is None: s._tosym()
        s.sym["over"].append((s._idx(i), v))

    def append(s, v):
        s._m = A.tick()
        c = core.CTX
        if c is not None and c.family:
            c.family[-1].on_append(s, v)
            return
        if s.sym is None: return list.append(s, v)
        s.sym["over"].append((pint(s.sym["len"]), v))
        s.sym["len"] = s.sym["len"] + 1

    def __iter__(s):
        if s.sym is None:
            if LOG:
                for x in list.__iter__(s): s._seen(x)
            return list.__iter__(s)
        n = s.sym["len"]
        if isinstance(n, SInt): raise Unsupported("iteration over a symbolic list at C level")
        return iter([s[k] for k in range(n)])

    def __deepcopy__(s, memo):
        if s.sym is None: return VList([_copy.deepcopy(x, memo) for x in list.__iter__(s)])
        return s._dup(lambda x: _copy.deepcopy(x))

    def _dup(s, f):
        fn = s.sym["fn"]
        cache = {k: f(v) for k, v in s.sym["cache"].items()}
        v = VList.family(lambda p: f(fn(p)), s.sym["len"])
        v.sym["cache"] = cache
        v.sym["over"] = [(k, f(x)) for k, x in s.sym["over"]]
        return v

    def copy(s):
        if s.sym is None: return VList(list.__iter__(s))
        return s._dup(lambda x: x)

    def __add__(s, o):
        if not isinstance(o, list): raise VCFail("list-concatenation", "list + %s" % type(o).__name__)
        if s.sym is None and not (isinstance(o, VList) and o.sym): return VList(list(s) + list(o))
        a, b = s.copy(), o.copy()
        n = s.symlen()

        def fn(p):
            q = SInt.mk(p)
            return a[q] if q < n else b[q - n]
        r = VList.family(lazy(fn), n + vlen(o))
        r.parts = getattr(s, "parts", [s]) + getattr(o, "parts", [o])
        return r

    def __mul__(s, n):
        if isinstance(n, SInt):
            if s.sym is None and list.__len__(s) == 1:
                x = list.__getitem__(s, 0)
                return VList.family(lambda p: x, n)
            if s.sym is None and list.__len__(s) == 0: return VList()
            raise Unsupported("list repetition")
        return VList(list(s) * n)
    __rmul__ = __mul__

    def __eq__(s, o):
        if o is None: return False
        if s.sym is not None: raise Unsupported("comparison of symbolic lists")
        return list.__eq__(s, o)
    __hash__ = None


def _eqbool_in(lo, p, hi):
    c = core.CTX
    return c.branch(z3.And(c.z(lo) <= c.z(p), c.z(p) < c.z(hi)))


def vlen(x):
    if isinstance(x, VList): return x.symlen()
    if isinstance(x, A.Arr): return x.shape[0]
    if isinstance(x, (list, tuple, dict, str, set, _np.ndarray, range)): return len(x)
    m = getattr(type(x), "__len__", None)
    if m is not None: return m(x)
    return len(x)


def visinstance(x, t):
    if isinstance(t, tuple): return any(visinstance(x, q) for q in t)
    if isinstance(x, SInt) and t in (int, _np.integer): return True
    if isinstance(x, (A.Arr, Poly)) and t in (float, complex):
        if isinstance(x, A.Arr) and x.scalar: return (t is complex) == bool(x.v.cx)
    if t in TYPEMAP: t = TYPEMAP[t]
    return isinstance(x, t)


def vmin(*a, **k):
    if k: return min(*a, **k)
    return A.vmin(*a)
def vmax(*a, **k):
    if k: return max(*a, **k)
    return A.vmax(*a)


def vabs(x):
    return abs(x)


def vsum(x, start=0):
    if isinstance(x, A.Arr):
        r = A.np_sum(x, 0) if x.ndim > 1 else A.np_sum(x)
        return r
    return sum(x, start)


def vint(x=0, *a):
    if isinstance(x, SInt): return x
    if isinstance(x, SBool): return 1 if x else 0
    if isinstance(x, Poly) and x.isint(): return SInt.mk(x)
    return int(x, *a)


def vfloat(x=0.0):
    if isinstance(x, (A.Arr, Poly)): return x
    if isinstance(x, SInt): return x
    return float(x)


def vlist(x=()):
    if isinstance(x, VList): return x.copy()
    return VList(x)


def vmap(f, *xs):
    if any(isinstance(x, (VList,)) and x.sym is not None for x in xs):
        x0 = xs[0]
        if len(xs) > 1: raise Unsupported("map over several symbolic lists")
        return VList.family(lazy(lambda p: f(x0[SInt.mk(p)])), x0.symlen())
    return map(f, *xs)


def venumerate(x, start=0):
    if islist(x): return SymEnum(x, start)
    return enumerate(x, start)


def vany(x):
    if isinstance(x, A.Arr):
        if x.ndim > 1: raise VCFail("ambiguous-truth", "any() over a matrix")
        raise Unsupported("any() over symbolic vector")
    return any(x)


def vall(x):
    if x is None: raise VCFail("type-error", "'NoneType' object is not iterable")
    if isinstance(x, A.Arr):
        if x.ndim > 1: raise VCFail("ambiguous-truth", "all() over a matrix")
        raise Unsupported("all() over symbolic vector")
    return all(x)


def vtype(*a):
    if len(a) == 1 and isinstance(a[0], A.Arr): return A.Arr if not a[0].scalar else (complex if a[0].v.cx else float)
    if len(a) == 1 and isinstance(a[0], SInt): return int
    if len(a) == 1 and isinstance(a[0], VList): return list
    return type(*a)


# loops ---------------------------------------------------------------------------------------------------
def heap(vals):
    """objects of /repo, lists and arrays reachable from the values"""
    out, todo = {}, list(vals)
    while todo:
        x = todo.pop()
        if id(x) in out: continue
        if isinstance(x, VList):
            out[id(x)] = (x, None)
            todo.extend(list.__iter__(x))
            if x._sym: todo.extend(v for k, v in x._sym["over"])
        elif isinstance(x, A.Arr): out[id(x)] = (x, None)
        elif isinstance(x, (list, tuple)): todo.extend(x)
        elif isinstance(x, dict): todo.extend(x.values())
        elif type(x).__module__.startswith("lib.") and hasattr(x, "__dict__"):
            out[id(x)] = (x, dict(x.__dict__))
            todo.extend(v for k, v in x.__dict__.items() if not k.startswith("_vc"))
    return out


class LoopCtl:
    """mode 0: arbitrary iteration; 1: after the loop; 2: no iteration; 3: summarised (map) loop"""
    def __init__(s, rng, locs, names, lid, attrs=(), subs=()):
        c = core.CTX
        s.attrs = attrs
        s.rng, s.names, s.lid, s.pre = rng, names, lid, locs
        s.vals = {}
        lo, hi, st = rng.lo, rng.hi, rng.step
        nonempty = (lo < hi) if st > 0 else (lo > hi)
        if not nonempty:
            s.mode = 2
            return
        h = c.data.get("loop_handler")
        rng.attrs = set(attrs)
        s.spec = h(rng, locs, lid) if h else None
        n = None
        if abs(st) == 1: s.last_ = hi - st
        else:
            n = rng.count()
            s.last_ = lo + st * (n - 1)
            rng.n = n
        if s.spec is not None:
            s.spec.assigned = set(names) | set(subs)
            if abs(st) != 1 and not getattr(s.spec, "strides", False): raise Unsupported("loop with stride %s" % st)
        if s.spec is None:
            s.mode = 3
            s.auto_begin()
            return
        s.spec.check(lo, locs, "init")
        s.mode = c.choose(2, "loop")
        if s.mode == 0:
            nm = c.fresh("i")
            s.index = core.sint(nm)
            zi = core.zint(s.index)
            if n is not None:
                c.assume(z3.And(zi >= 0, zi < core.zint(n)))
                s.index = lo + st * s.index
            elif st == 1: c.assume(z3.And(core.zint(lo) <= zi, zi < core.zint(hi)))
            else: c.assume(z3.And(core.zint(hi) < zi, zi <= core.zint(lo)))
            for v in getattr(s.spec, "special", ()):      # names do not unify across equations: use the literal index where it is known
                if s.index == v:
                    s.index = v
                    break
            s.vals = s.spec.havoc(s.index, locs) or {}
            s.snap = heap(list(locs.values()) + list(s.vals.values()))
            s.stamp = A.tick()
        else:
            s.spec.at_exit = True
            s.vals = s.spec.havoc(hi if n is None else lo + st * n, locs) or {}

    @property
    def target(s): return s.index if s.rng.elems is None else s.rng.elems(s.index)
    @property
    def last(s): return s.last_ if s.rng.elems is None else s.rng.elems(s.last_)

    def val(s, name):
        if name in s.vals: return s.vals[name]
        if s.mode == 2: return s.pre[name] if name in s.pre else Poison(name)
        if s.mode == 3:
            return s.pre[name] if name in s.pre else Poison(name)
        return Poison(name)

    def cur(s, name, locs):
        """variable whose elements are assigned in the loop: replaced if the invariant describes it (else the heap check applies)"""
        if name in s.vals: return s.vals[name]
        return locs[name] if name in locs else Poison(name)

    def end(s, locs):
        if s.mode == 3:
            s.auto_end(locs)
            return
        s.frame()
        s.spec.check(s.index + s.rng.step, locs, "preserved")
        raise PathEnd()

    def frame(s):
        """everything the loop body changed on the heap must be described by the invariant (it is havocked at the exit)"""
        fields = set(getattr(s.spec, "fields", ()))
        lists = {id(x) for x in (s.spec.lists() if hasattr(s.spec, "lists") else ())}
        for x, d in s.snap.values():
            if d is not None:
                for k in set(d) | set(x.__dict__):
                    if k.startswith("_vc") or k in fields: continue
                    if d.get(k) is not x.__dict__.get(k): raise Unsupported("field %s is changed by a loop whose invariant does not mention it" % k)
            elif x._m > s.stamp and id(x) not in lists:
                raise Unsupported("%s is changed by a loop whose invariant does not mention it" % ("a list" if isinstance(x, VList) else "an array"))

    # map-loop summary
    def auto_begin(s):
        c = core.CTX
        if s.rng.step != 1: raise Unsupported("summary of a descending loop")
        if set(s.attrs) - {"_dtype"}: raise Unsupported("loop without invariant assigns attributes %s" % (s.attrs,))
        nm = c.fresh("i")
        s.sym = Sym(nm, "i", False)
        s.index = core.sint(nm)
        zi = core.zint(s.index)
        c.assume(z3.And(core.zint(s.rng.lo) <= zi, zi < core.zint(s.rng.hi)))
        c.nofork += 1
        s.appends = {}
        s.lists = {}
        s.slabs = []
        s.serial = next(A._serial)
        c.family.append(s)
        s.vals = {}

    def on_append(s, lst, v):
        k = id(lst)
        if k in s.appends: raise Unsupported("two appends to one list in a summarised loop")
        s.appends[k] = v
        s.lists[k] = lst

    def auto_end(s, locs):
        c = core.CTX
        c.family.pop()
        c.nofork -= 1
        lo, hi = pint(s.rng.lo), pint(s.rng.hi)
        for a, ks, ax, v in s.slabs: a._poison = None
        for a, ks, ax, v in s.slabs:
            pos = sum(1 for x in ks[:ax] if isinstance(x, slice))
            full = T.Net((), v.terms, v.cx) if not v.axes else v
            if not v.axes and any(isinstance(x, slice) for x in ks): raise Unsupported("scalar slab")
            val = A.Arr(A.lift(full, s.sym, lo, hi, pos))
            key = list(ks)
            key[ax] = slice(SInt.mk(lo), SInt.mk(hi))
            A.setitem(a, tuple(key), val)
        for n in s.names:
            if isinstance(locs.get(n), _np.dtype): s.vals[n] = locs[n]     # dtype promotion over a uniform family is idempotent
            elif n in s.pre and n in locs and locs[n] is not s.pre[n]:
                s.vals[n] = Poison(n)
            else: s.vals[n] = Poison(n)
        for k, v in s.appends.items():
            lst = s.lists[k]
            lst._tosym()
            L0 = pint(lst.sym["len"])
            sy = s.sym
            shift = L0 - lo

            def fn(p, v=v, sy=sy, shift=shift):
                return subst_value(v, sy, p - shift)
            lst.sym["over"].append(((L0, L0 + hi - lo, fn), None))
            lst.sym["len"] = SInt.mk(L0 + hi - lo)


def subst_value(v, sy, p):
    """value with the loop index symbol replaced by p (also inside indexed atom names)"""
    if isinstance(v, Poly): return v.subst(lambda a: substatom(a, sy, p))
    if isinstance(v, SInt): return SInt.mk(v.poly.subst(lambda a: substatom(a, sy, p)))
    if hasattr(v, "subst_"): return v.subst_(sy, p)
    if isinstance(v, _np.ndarray):
        r = _np.empty(v.shape, dtype=object)
        for i, x in _np.ndenumerate(v): r[i] = subst_value(x, sy, p) if isinstance(x, (Poly, SInt)) else x
        return r.view(type(v))
    if isinstance(v, (int, float, complex, str, type(None), bool)): return v
    if isinstance(v, (list, tuple)): return type(v)(subst_value(x, sy, p) for x in v)
    raise Unsupported("summary of a value of type %s" % type(v))


IDX = {}     # name of an indexed atom -> (base, index Poly, kind)


def indexed(base, p, kind="c"):
    p = Poly.const(p)
    nm = "%s[%s]" % (base, p)
    IDX[nm] = (base, p, kind)
    return Poly.atom(nm, kind)


def substatom(a, sy, p):
    if a == sy: return p
    if a.name in IDX:
        base, q, kind = IDX[a.name]
        q2 = q.subst(lambda b: substatom(b, sy, p))
        if q2 == q: return None
        r = indexed(base, q2, kind)
        return r.conj() if a.conj else r
    return None


def loads(n):
    """number of times every name is read"""
    out = {}
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): out[x.id] = out.get(x.id, 0) + 1
    return out


def increment(b, c):
    """constant k of the statement `c += k`, `c -= k`, `c = c + k`, `c = k + c`, `c = c - k`; None otherwise"""
    def const(x):
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub): return None if const(x.operand) is None else -const(x.operand)
        return x.value if isinstance(x, ast.Constant) and type(x.value) is int else None
    me = lambda x: isinstance(x, ast.Name) and x.id == c
    if isinstance(b, ast.AugAssign) and me(b.target): op, k = b.op, const(b.value)
    elif isinstance(b, ast.Assign) and len(b.targets) == 1 and me(b.targets[0]) and isinstance(b.value, ast.BinOp):
        op = b.value.op
        if me(b.value.left): k = const(b.value.right)
        elif me(b.value.right) and isinstance(op, ast.Add): k = const(b.value.left)
        else: return None
    else: return None
    if k is None or not isinstance(op, (ast.Add, ast.Sub)): return None
    return k if isinstance(op, ast.Add) else -k


def bound_expr(e):
    if isinstance(e, (ast.Name, ast.Constant)): return True
    if isinstance(e, ast.BinOp): return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and bound_expr(e.left) and bound_expr(e.right)
    if isinstance(e, ast.UnaryOp): return isinstance(e.op, ast.USub) and bound_expr(e.operand)
    if isinstance(e, ast.Attribute): return bound_expr(e.value)
    if isinstance(e, ast.Subscript): return bound_expr(e.slice) and bound_expr(e.value)
    if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords): return False
    return (e.func.id == "len" and len(e.args) == 1 or e.func.id in ("min", "max") and len(e.args) == 2) and all(bound_expr(x) for x in e.args)


def vc_same(now, then):
    if isinstance(now, SInt) or isinstance(then, SInt):
        if pint(now) != pint(then): raise Unsupported("the bound of a counting while loop changes in its body")
    elif now != then: raise Unsupported("the bound of a counting while loop changes in its body")


def vc_after(a, b, k):
    """value of the counter after the loop"""
    if k in (1, -1):
        return b if (a < b if k > 0 else a > b) else a
    if isinstance(a, SInt) or isinstance(b, SInt): raise Unsupported("counter of a symbolic loop with stride %d read after the loop" % k)
    return a + len(range(a, b, k)) * k


class Rewriter(ast.NodeTransformer):
    def __init__(s):
        s.k = 0
        s.fn = []
        s.local = []
        s.loads = []

    def visit_FunctionDef(s, n):
        s.fn.append(n.name)
        s.loads.append(loads(n))
        s.local.append({a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)} | {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        s.generic_visit(n)
        s.local.pop()
        s.loads.pop()
        s.fn.pop()
        return n

    def visit_List(s, n):
        s.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("_vc_list_", ast.Load()), [n], []), n)
        return n

    def visit_Call(s, n):
        s.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("list", "int", "type", "float"):
            n.func = ast.copy_location(ast.Name("_vc_call_%s_" % n.func.id, ast.Load()), n.func)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "result_type":
            # result_type is idempotent: the arguments of a symbolic list are represented by a generic element
            n.args = [ast.copy_location(ast.Starred(ast.Call(ast.Name("_vc_star_", ast.Load()), [x.value], []), ast.Load()), x) if isinstance(x, ast.Starred) else x for x in n.args]
            ast.fix_missing_locations(n)
        return n

    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("_vc_fmt_", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_While(s, n):
        if not s.fn or n.orelse: return s.generic_visit(n)
        counting = s.counting(n)
        if counting:
            out = []
            for x in counting:
                ast.copy_location(x, n)
                ast.fix_missing_locations(x)
                if isinstance(x, ast.For):
                    y = s.visit_For(x)
                    out += y if isinstance(y, list) else [y]
                else: out.append(x)
            return out
        names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        subs = {x.value.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        subs = sorted((subs & s.local[-1]) - set(names))
        attrs = sorted({x.attr for b in n.body for x in ast.walk(b) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))})
        s.generic_visit(n)
        s.k += 1
        k = s.k
        ct = "_vc_ct_%d" % k
        N = lambda x: ast.Name(x, ast.Load())
        S = lambda x: ast.Name(x, ast.Store())
        call = lambda f, *a: ast.Call(f, list(a), [])
        at = lambda o, a: ast.Attribute(N(o), a, ast.Load())
        tup = lambda q: ast.Tuple([ast.Constant(v) for v in q], ast.Load())
        lid = ast.Constant("%s:%d" % (".".join(s.fn), n.lineno))
        havoc = [ast.Assign([S(v)], call(at(ct, "val"), ast.Constant(v))) for v in names]
        havoc += [ast.Assign([S(v)], call(at(ct, "cur"), ast.Constant(v), call(N("locals")))) for v in subs]
        body2 = [_copy.deepcopy(b) for b in n.body]
        once = ast.For(S("_vc_o_%d" % k), ast.Tuple([ast.Constant(0)], ast.Load()), [ast.If(ast.UnaryOp(ast.Not(), _copy.deepcopy(n.test)), [ast.Break()], [])] + body2,
                       [ast.Expr(call(at(ct, "end"), call(N("locals"))))])
        unrolled = ast.While(ast.BoolOp(ast.And(), [n.test, call(at(ct, "tick"))]), n.body, [])
        new = [ast.Assign([S(ct)], call(N("_vc_while_"), call(N("locals")), tup(names), lid, tup(attrs), tup(subs))),
               ast.If(at(ct, "sym"), havoc + [once], [unrolled])]
        for x in new:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return new

    def counting(s, n):
        """`while c < e: ...; c += k` (k a constant, e not changed by the body) is the for loop over range(c, e, k); None for every other loop.
        The body re-evaluates e at the end of every iteration and the engine rejects the path unless it is the value the range was built from."""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1): return None
        cands = [(t.left, t.ops[0], t.comparators[0]), (t.comparators[0], {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(t.ops[0]), ast.Eq)(), t.left)]
        inbody = [x for b in n.body for x in ast.walk(b)]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) for x in inbody): return None
        stored = [x.id for x in inbody if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]
        attrs = {x.attr for x in inbody if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        for c, op, e in cands:
            if not isinstance(c, ast.Name) or stored.count(c.id) != 1: continue
            js = [(j, increment(b, c.id)) for j, b in enumerate(n.body) if increment(b, c.id)]
            if len(js) != 1: continue
            j, k = js[0]
            if not (isinstance(op, (ast.Lt, ast.LtE)) and k > 0 or isinstance(op, (ast.Gt, ast.GtE)) and k < 0): continue
            if any(isinstance(x, ast.Name) and x.id == c.id for b in n.body[j + 1:] for x in ast.walk(b)): continue
            if any(isinstance(x, ast.Continue) for b in n.body[:j] for x in ast.walk(b)): continue
            if not bound_expr(e) or {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & set(stored) or {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)} & attrs: continue
            after = s.loads[-1].get(c.id, 0) > loads(n).get(c.id, 0)
            if after and any(isinstance(x, ast.Break) for x in inbody): continue
            s.k += 1
            w, v = "_vc_w%d" % s.k, "_vc_e%d" % s.k
            N = lambda x: ast.Name(x, ast.Load())
            S = lambda x: ast.Name(x, ast.Store())
            one = 0 if isinstance(op, (ast.Lt, ast.Gt)) else 1 if k > 0 else -1
            stop = lambda: ast.BinOp(N(v), ast.Add(), ast.Constant(one)) if one else N(v)
            body = n.body[:j] + n.body[j + 1:] + [ast.Expr(ast.Call(N("_vc_same_"), [_copy.deepcopy(e), N(v)], []))]
            out = [ast.Assign([S(w)], N(c.id)), ast.Assign([S(v)], _copy.deepcopy(e)),
                   ast.For(S(c.id), ast.Call(N("range"), [N(w), stop(), ast.Constant(k)], []), body, [])]
            if after: out.append(ast.Assign([S(c.id)], ast.Call(N("_vc_after_"), [N(w), stop(), ast.Constant(k)], [])))
            return out
        return None

    def visit_ListComp(s, n):
        s.generic_visit(n)
        g = n.generators
        if len(g) == 1 and isinstance(g[0].target, ast.Name) and not g[0].is_async and not g[0].ifs:
            lam = ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), n.elt)
            return ast.copy_location(ast.Call(ast.Name("_vc_lc_", ast.Load()), [lam, g[0].iter], []), n)
        return ast.copy_location(ast.Call(ast.Name("_vc_list_", ast.Load()), [n], []), n)

    def visit_For(s, n):
        if not s.fn: return s.generic_visit(n)
        names = set()
        for b in n.body + [n.target]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): names.add(x.id)
        subs = {x.value.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        subs = sorted((subs & s.local[-1]) - names)
        s.generic_visit(n)
        if n.orelse: return n
        s.k += 1
        k = s.k
        it, ct = "_vc_it%d" % k, "_vc_ct_%d" % k
        N = lambda x: ast.Name(x, ast.Load())
        S = lambda x: ast.Name(x, ast.Store())
        call = lambda f, *a: ast.Call(f, list(a), [])
        at = lambda o, a: ast.Attribute(N(o), a, ast.Load())
        names = sorted(names)
        lid = ast.Constant("%s:%d" % (".".join(s.fn), n.lineno))
        attrs = sorted({x.attr for b in n.body for x in ast.walk(b) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))})
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        havoc = [ast.Assign([S(v)], call(at(ct, "val"), ast.Constant(v))) for v in names if v not in tnames]
        havoc += [ast.Assign([S(v)], call(at(ct, "cur"), ast.Constant(v), call(N("locals")))) for v in subs if v not in tnames]
        setidx = ast.Assign([_copy.deepcopy(n.target)], at(ct, "target"))
        setlast = ast.Assign([_copy.deepcopy(n.target)], at(ct, "last"))
        body2 = [_copy.deepcopy(b) for b in n.body]
        step = [setidx] + havoc + [
            ast.For(S("_vc_o_%d" % k), ast.Tuple([ast.Constant(0)], ast.Load()), body2,
                    [ast.Expr(call(at(ct, "end"), call(N("locals"))))] + [_copy.deepcopy(h) for h in havoc] + [_copy.deepcopy(setlast)])]
        exit_ = [_copy.deepcopy(h) for h in havoc] + [setlast]
        cmp = lambda v: ast.Compare(at(ct, "mode"), [ast.In()], [ast.Tuple([ast.Constant(x) for x in v], ast.Load())])
        new = [
            ast.Assign([S(it)], n.iter),
            ast.If(call(N("_vc_sym_"), N(it)), [
                ast.Assign([S(ct)], call(N("_vc_enter_"), call(N("_vc_rng_"), N(it)), call(N("locals")), ast.Tuple([ast.Constant(v) for v in names], ast.Load()), lid, ast.Tuple([ast.Constant(v) for v in attrs], ast.Load()), ast.Tuple([ast.Constant(v) for v in subs], ast.Load()))),
                ast.If(cmp((0, 3)), step, [ast.If(cmp((1,)), exit_, [])]),
            ], [ast.For(n.target, N(it), n.body, [])]),
        ]
        out = []
        for x in new:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
            out.append(x)
        return out


class SymEnum:
    def __init__(s, x, start): s.x, s.start = x, start
    def __iter__(s): raise Unsupported("C-level iteration over a symbolic enumeration")


def islist(x): return isinstance(x, VList) and x.sym is not None and isinstance(x.sym["len"], SInt)
def vc_sym(it): return isinstance(it, (SymRange, SymEnum)) or islist(it)


def vc_rng(it):
    """loop over the elements of a list of symbolic length = loop over its indices"""
    if isinstance(it, SymRange): return it
    if isinstance(it, SymEnum):
        r = SymRange(0, it.x.symlen(), 1)
        r.elems = lambda i: (i + it.start, it.x[i])
        return r
    r = SymRange(0, it.symlen(), 1)
    r.elems = lambda i: it[i]
    return r


class WhileCtl:
    """while loop described by an invariant (c.data["while_handler"]): arbitrary iteration, or left unrolled (no handler / refused)"""
    def __init__(s, locs, names, lid, attrs=(), subs=()):
        c = core.CTX
        h = c.data.get("while_handler") if c is not None else None
        s.names, s.pre, s.vals = names, locs, {}
        s.spec = h(locs, lid, set(names) | set(subs), set(attrs)) if h else None
        s.sym = s.spec is not None
        if not s.sym:
            s.n, s.dec = 0, len(c.dec) if c is not None else 0
            return
        s.spec.assigned = set(names) | set(subs)
        s.spec.check(locs, "init")
        s.vals = s.spec.havoc(locs) or {}
        s.snap = heap(list(locs.values()) + list(s.vals.values()))
        s.stamp = A.tick()

    def val(s, name):
        if name in s.vals: return s.vals[name]
        return Poison(name)

    cur = LoopCtl.cur
    frame = LoopCtl.frame

    def tick(s):
        """unrolled loop: bound on the number of iterations"""
        s.n += 1
        c = core.CTX
        if c is not None and "loop_handler" in c.data and len(c.dec) > s.dec: c.data["unrolled"] = True     # symbolic guard, no invariant
        if s.n > 64: raise Unsupported("unrolled while loop exceeds 64 iterations")
        return True

    def end(s, locs):
        s.frame()
        s.spec.check(locs, "preserved")
        raise PathEnd()


def vc_lc(f, it):
    if isinstance(it, SymRange):
        if it.step != 1: raise Unsupported("comprehension over descending range")
        lo = pint(it.lo)
        return VList.family(lazy(lambda p: f(SInt.mk(p + lo))), SInt.mk(pint(it.hi) - lo))
    if isinstance(it, VList) and it.sym is not None:
        return VList.family(lazy(lambda p: f(it[SInt.mk(p)])), it.symlen())
    return VList([f(x) for x in it])


def vc_fmt(f, a):
    """formatting of printed text: symbolic values are printed by name"""
    try: return f % a
    except (Unsupported, TypeError):
        return f + " % " + repr(a)


def vc_star(x):
    if isinstance(x, VList) and getattr(x, "parts", None): return [y for q in x.parts for y in vc_star(q)]
    if not isinstance(x, VList) or x.sym is None or not isinstance(x.sym["len"], SInt): return x
    c = core.CTX
    if not (x.sym["len"] >= 1): return []
    k = core.sint(c.fresh("g"))
    c.assume(z3.And(core.zint(k) >= 0, core.zint(k) < core.zint(x.sym["len"])))
    v = x[k]
    if not isinstance(v, _np.dtype): raise Unsupported("star arguments from a symbolic list")
    return [v]


class _Stub:
    """absorbs anything (modules used only for output, plotting, files)"""
    def __init__(s, n): s._n = n
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        return _Stub(s._n + "." + k)
    def __call__(s, *a, **k): raise Unsupported("call of %s" % s._n)


class _Quiet(_Stub):
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        return _Quiet(s._n + "." + k)
    def __call__(s, *a, **k): return None


class CopyMod:
    @staticmethod
    def deepcopy(x, memo=None): return _copy.deepcopy(x)
    @staticmethod
    def copy(x): return x.copy() if isinstance(x, VList) else _copy.copy(x)


_printing = lambda *a, **k: None
TYPEMAP = {}
CALLS = {"list": vlist, "int": vint, "type": vtype, "float": vfloat}


class _Ty:
    pass


def make_builtins(importer):
    b = dict(vars(builtins))
    b.update(range=vrange, len=vlen, min=vmin, max=vmax, sum=vsum, isinstance=visinstance, print=_printing,
             map=vmap, enumerate=venumerate, any=vany, all=vall, input=_printing, float=float, complex=complex,
             __import__=importer, abs=vabs)
    return b


class World:
    """a set of modules of /repo loaded against the stand-ins"""
    def __init__(s, repo=None, numpy=None):
        s.repo = repo or REPO
        s.np = numpy or A.make_numpy()
        s.mods = {}
        s.ext = {"numpy": s.np, "warnings": _Quiet("warnings"), "copy": CopyMod, "time": _Quiet("time"), "os": _Quiet("os"),
                 "pickle": _Stub("pickle"), "sys": None, "matplotlib": _Stub("matplotlib"), "scipy": _Stub("scipy"),
                 "sexpmv": _Stub("sexpmv"), "lib.mpslib.sexpmv": _Stub("sexpmv")}
        s.sources = {}

    def importer(s, name, globals=None, locals=None, fromlist=(), level=0):
        if name in ("__future__", "functools", "operator", "math", "collections", "itertools", "string", "numbers"):
            m = builtins.__import__(name, globals, locals, fromlist, level)
            if name == "collections":
                m2 = types.SimpleNamespace(**{k: getattr(m, k) for k in dir(m) if not k.startswith("_")})
                import collections.abc as abc
                m2.Iterable = abc.Iterable
                return m2
            return m
        if name == "sys":
            return types.SimpleNamespace(stdout=_Quiet("stdout"), modules=s.mods, exit=_exit, float_info=sys.float_info, maxsize=sys.maxsize, path=[], version_info=sys.version_info)
        if level:
            # relative import inside lib.ncon
            pkg = (globals or {}).get("__package__") or ""
            name = pkg + ("." + name if name else "")
        if name.startswith("lib"):
            full = name
            m = s.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and s._path(full + "." + f): s.load(full + "." + f)
                    if not hasattr(m, f) and (full + "." + f) in s.mods: setattr(m, f, s.mods[full + "." + f])
                return m
            top = s.mods.get("lib") or s._mk("lib")
            return top
        top = name.split(".")[0]
        m = s.ext.get(name) or s.ext.get(top) or _Stub(top)
        if fromlist:
            r = types.SimpleNamespace()
            for f in fromlist:
                if f in ("LinAlgError", "ArpackNoConvergence", "ArpackError"):
                    setattr(r, f, _np.linalg.LinAlgError if f == "LinAlgError" else _Arpack)
                    continue
                try: setattr(r, f, getattr(m, f))
                except (Unsupported, AttributeError): setattr(r, f, _Stub(name + "." + f))
            return r
        return s.ext.get(top) or m

    def _mk(s, full):
        m = types.ModuleType(full)
        s.mods[full] = m
        if "." in full:
            par, _, leaf = full.rpartition(".")
            setattr(s.mods.get(par) or s._mk(par), leaf, m)
        return m

    def _path(s, full):
        p = os.path.join(s.repo, *full.split("."))
        if os.path.isdir(p): return os.path.join(p, "__init__.py") if os.path.exists(os.path.join(p, "__init__.py")) else p
        if os.path.exists(p + ".py"): return p + ".py"
        return None

    def load(s, full):
        if full in s.mods and full != "lib": return s.mods[full]
        p = s._path(full)
        if "." in full: s.load(full.rpartition(".")[0])
        m = s.mods.get(full) or s._mk(full)
        if p is None:
            raise Unsupported("module %s not found" % full)
        if os.path.isdir(p): return m
        src = open(p).read()
        s.sources[full] = (p, src)
        tree = ast.parse(src)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        m.__file__ = p
        m.__package__ = full if p.endswith("__init__.py") else full.rpartition(".")[0]
        m.__dict__.update({"__builtins__": make_builtins(s.importer), "_vc_sym_": vc_sym, "_vc_enter_": LoopCtl, "_vc_list_": VList,
                           "_vc_lc_": vc_lc, "_vc_rng_": vc_rng, "_vc_same_": vc_same, "_vc_after_": vc_after, "_vc_while_": WhileCtl, "_vc_fmt_": vc_fmt, "_vc_star_": vc_star, "__name__": full})
        m.__dict__.update({"_vc_call_%s_" % k: f for k, f in CALLS.items()})
        exec(compile(tree, p, "exec"), m.__dict__)
        return m


class _Arpack(Exception):
    pass


def _exit(*a): raise VCFail("sys.exit", "sys.exit%s" % (a,))
