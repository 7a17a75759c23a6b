"""Path exploration, symbolic integers and booleans, and the obligation ledger."""
import z3
from .poly import Poly, Sym, Unsupported, G, _num

CTX = None


class PathEnd(Exception):
    """the rest of this path is irrelevant (end of an induction step, infeasible assumption)"""


class VCFail(Exception):
    """a definite failure of an obligation that also stops the path (e.g. an operation that raises)"""
    def __init__(s, name, detail):
        Exception.__init__(s, "%s: %s" % (name, detail))
        s.name = name
        s.detail = detail


class Ob:
    __slots__ = ("name", "ok", "backend", "detail", "path", "ms")

    def __init__(s, name, ok, backend, detail, path, ms=0.0):
        s.name, s.ok, s.backend, s.detail, s.path, s.ms = name, ok, backend, detail, path, ms


class Ctx:
    def __init__(s, prefix=()):
        s.prefix = list(prefix)
        s.dec = []
        s.pending = []
        s.solver = z3.Solver()
        s.solver.set("timeout", 4000)
        s.facts = []
        s.obs = []
        s.trace = []
        s.fresh_n = 0
        s.rules = []
        s.assumptions = set()
        s.z3time = 0.0
        s.z3calls = 0
        s.zatoms = {}
        s.bools = {}
        s.norms = []
        s.posatoms = set()
        s.notes = []
        s.family = []
        s.nofork = 0
        s.data = {}

    # fresh names ---------------------------------------------------------------------------------
    def fresh(s, base):
        s.fresh_n += 1
        return "%s#%d" % (base, s.fresh_n)

    # z3 ------------------------------------------------------------------------------------------
    def z(s, p):
        """z3 integer term of an integer polynomial"""
        p = Poly.const(p)
        if not p.isint(): raise Unsupported("not an integer polynomial: %s" % p)
        tot = None
        for m, c in p.t.items():
            e = z3.IntVal(int(c.a))
            for a, k in m:
                v = s.zatoms.get(a)
                if v is None:
                    v = s.zatoms[a] = z3.Int(a.name)
                    s._atomfacts(a, v)
                for _ in range(k): e = e * v
            tot = e if tot is None else tot + e
        return tot if tot is not None else z3.IntVal(0)

    def _atomfacts(s, a, v):
        if a.name.startswith("|"):       # dimensions are written |name| and are positive
            s.assume(v >= 1)

    def assume(s, f):
        s.facts.append(f)
        s.solver.add(f)

    def check(s, *extra):
        import time
        t = time.time()
        s.solver.push()
        for e in extra: s.solver.add(e)
        r = s.solver.check()
        s.solver.pop()
        s.z3time += time.time() - t
        s.z3calls += 1
        return r

    def implied(s, f):
        return s.check(z3.Not(f)) == z3.unsat

    def branch(s, f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        can_t = s.check(f) != z3.unsat
        can_f = s.check(z3.Not(f)) != z3.unsat
        if can_t and not can_f: return True
        if can_f and not can_t: return False
        if not can_t and not can_f: raise PathEnd()
        if s.nofork: raise Unsupported("branch on %s inside a summarised loop body" % f)
        r = s.choose(2, str(f)) == 0
        s.assume(f if r else z3.Not(f))
        return r

    def choose(s, n, what=""):
        i = len(s.dec)
        if i < len(s.prefix):
            c = s.prefix[i]
        else:
            c = 0
            for k in range(1, n): s.pending.append(s.dec + [k])
        s.dec.append(c)
        s.trace.append("%s:%d" % (what[:70], c))
        return c

    # obligations ---------------------------------------------------------------------------------
    def ob(s, name, ok, backend, detail="", ms=0.0):
        s.obs.append(Ob(name, bool(ok), backend, detail, tuple(s.dec), ms))
        return ok

    def prove_z(s, name, f, detail=""):
        import time
        t = time.time()
        s.solver.push()
        s.solver.add(z3.Not(f))
        r = s.solver.check()
        d = detail
        if r == z3.sat:
            d = "counterexample %s; path %s; goal %s %s" % (s.solver.model(), s.trace, f, detail)
        s.solver.pop()
        if r == z3.unknown:
            raise Unsupported("z3 answered unknown on %s" % name)
        return s.ob(name, r == z3.unsat, "z3", d, (time.time() - t) * 1e3)


def ctx():
    return CTX


class Result:
    def __init__(s):
        s.obs = []
        s.unsupported = []
        s.paths = 0
        s.z3time = 0.0
        s.z3calls = 0
        s.assumptions = set()
        s.ended = 0
        s.complete = 0
        s.notes = []

    @property
    def failed(s): return [o for o in s.obs if not o.ok]
    def status(s):
        if s.failed: return "failed"
        if s.unsupported: return "unsupported"
        if not s.obs: return "vacuous"
        return "proved"


def explore(fn, maxpaths=400, time_limit=None):
    """run fn() along every feasible path; fn creates its symbolic inputs itself through CTX"""
    global CTX
    import time, traceback
    t0 = time.time()
    res = Result()
    todo = [[]]
    old = CTX
    while todo:
        pre = todo.pop()
        res.paths += 1
        if res.paths > maxpaths or (time_limit and time.time() - t0 > time_limit):
            res.unsupported.append("path/time limit reached after %d paths" % res.paths)
            break
        CTX = Ctx(pre)
        from . import tensor
        tensor.TSym.reg.clear()
        try:
            fn()
            res.complete += 1
        except PathEnd:
            res.ended += 1
        except VCFail as e:
            CTX.ob(e.name, False, "engine", e.detail)
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if not f.filename.startswith("/verif/engine") and "/verif/" not in f.filename]
            w = "%s:%s" % (where[-1].filename, where[-1].lineno) if where else ""
            res.unsupported.append("%s %s" % (e, w))
        except RecursionError:
            res.unsupported.append("recursion limit")
        except Exception as e:      # anything the engine or a harness does not model: this path is undecided
            tb = traceback.extract_tb(e.__traceback__)
            res.unsupported.append("%s: %s (%s)" % (type(e).__name__, e, "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-3:])))
        if CTX.data.get("unrolled") and any(not o.ok for o in CTX.obs):     # a symbolic loop without an invariant: undecided
            res.unsupported.append("obligation after a while loop without invariant: %s" % next(o.name for o in CTX.obs if not o.ok))
            CTX.obs = [o for o in CTX.obs if o.ok]
        todo.extend(CTX.pending)
        res.obs.extend(CTX.obs)
        res.z3time += CTX.z3time
        res.z3calls += CTX.z3calls
        res.assumptions |= CTX.assumptions
        res.notes.extend(CTX.notes)
    CTX = old
    return res


# symbolic booleans and integers ----------------------------------------------------------------------
class SBool:
    __slots__ = ("f",)

    def __init__(s, f): s.f = f
    def __bool__(s): return CTX.branch(s.f)
    def __and__(s, o): return SBool(z3.And(s.f, _zb(o)))
    __rand__ = __and__
    def __or__(s, o): return SBool(z3.Or(s.f, _zb(o)))
    __ror__ = __or__
    def __invert__(s): return SBool(z3.Not(s.f))
    def all(s): return s
    def any(s): return s
    def __eq__(s, o): return False if o is None else SBool(s.f == _zb(o))
    __hash__ = None


def _zb(o):
    return o.f if isinstance(o, SBool) else z3.BoolVal(bool(o))


def opaque_bool(key):
    c = CTX
    if key not in c.bools: c.bools[key] = z3.Bool(key)
    return SBool(c.bools[key])


class SInt:
    """symbolic integer (mathematical)"""
    __slots__ = ("poly",)
    is_polyscalar = True
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(s, p): s.poly = p

    @staticmethod
    def mk(p):
        return p.value() if p.is_const() else SInt(p)

    def _o(s, o):
        if isinstance(o, SInt): return o.poly
        if isinstance(o, bool): return Poly.const(int(o))
        if isinstance(o, int): return Poly.const(o)
        if isinstance(o, Poly): return o
        if hasattr(o, "item") and getattr(o, "shape", None) == () and isinstance(o.item(), int): return Poly.const(o.item())
        if isinstance(o, float) and o == int(o): return Poly.const(int(o))
        return None

    def _bin(s, o, f):
        p = s._o(o)
        if p is None: return NotImplemented
        return SInt.mk(f(s.poly, p))
    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o):
        if isinstance(o, (list, tuple)): raise Unsupported("list * symbolic length")
        return s._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(s): return SInt.mk(-s.poly)
    def __pos__(s): return s
    def __pow__(s, n): return SInt.mk(s.poly ** n)

    def __floordiv__(s, o): return sdivmod(s, o)[0]
    def __rfloordiv__(s, o): return sdivmod(o, s)[0]
    def __mod__(s, o): return sdivmod(s, o)[1]
    def __rmod__(s, o): return sdivmod(o, s)[1]
    def __divmod__(s, o): return sdivmod(s, o)
    def __truediv__(s, o):
        q = s.poly / Poly.const(o)
        return q
    def __rtruediv__(s, o): return Poly.const(o) * s.poly.inv()

    def _cmp(s, o, f, sgn):
        p = s._o(o)
        if p is None:
            if isinstance(o, float):
                import math
                if o == float("inf"): return {"lt": True, "le": True, "gt": False, "ge": False, "eq": False, "ne": True}[sgn]
                fl = math.floor(o)
                z = CTX.z(s.poly)
                return SBool({"lt": z <= fl, "le": z <= fl, "gt": z > fl, "ge": z > fl}[sgn])
            return NotImplemented
        d = s.poly - p
        if d.is_const():
            return f(d.value(), 0)
        return SBool(f(CTX.z(s.poly), CTX.z(p)))
    def __lt__(s, o): return s._cmp(o, lambda a, b: a < b, "lt")
    def __le__(s, o): return s._cmp(o, lambda a, b: a <= b, "le")
    def __gt__(s, o): return s._cmp(o, lambda a, b: a > b, "gt")
    def __ge__(s, o): return s._cmp(o, lambda a, b: a >= b, "ge")
    def __eq__(s, o):
        if o is None or isinstance(o, (str, tuple, list)): return False
        return s._cmp(o, lambda a, b: a == b, "eq")
    def __ne__(s, o):
        if o is None or isinstance(o, (str, tuple, list)): return True
        return s._cmp(o, lambda a, b: a != b, "ne")
    def __hash__(s): return hash(s.poly)
    def __bool__(s): return bool(s != 0)
    def __abs__(s):
        return s if (s >= 0) else -s
    def __index__(s): raise Unsupported("symbolic integer %s used as a concrete index" % s.poly)
    def __int__(s): raise Unsupported("int() of a symbolic integer")
    def __float__(s): raise Unsupported("float() of a symbolic integer")
    def __repr__(s): return "<%s>" % s.poly
    __str__ = __repr__
    def __format__(s, f): return repr(s)
    def __deepcopy__(s, m): return s
    def __copy__(s): return s
    @property
    def real(s): return s
    @property
    def imag(s): return 0
    def conjugate(s): return s


def sdivmod(a, b):
    pa = a.poly if isinstance(a, SInt) else Poly.const(a)
    pb = b.poly if isinstance(b, SInt) else Poly.const(b)
    if pa.is_const() and pb.is_const():
        q, r = divmod(pa.value(), pb.value())
        return q, r
    q = pa.exact_div(pb) if not pb.iszero() else None
    if q is not None and q.isint(): return SInt.mk(q), 0
    key = ("divmod", pa, pb)
    c = CTX
    if key not in c.data:
        qn, rn = c.fresh("q"), c.fresh("r")
        q, r = Poly.atom(qn, "i"), Poly.atom(rn, "i")
        za, zb_, zq, zr = c.z(pa), c.z(pb), c.z(q), c.z(r)
        c.assume(z3.Implies(zb_ > 0, z3.And(zr >= 0, zr < zb_)))
        c.assume(z3.Implies(zb_ < 0, z3.And(zr <= 0, zr > zb_)))
        c.assume(za == zb_ * zq + zr)
        c.data[key] = (q, r)
    q, r = c.data[key]
    return SInt(q), SInt(r)


def sint(name): return SInt(Poly.atom(name, "i"))
def dim(name): return SInt(Poly.atom("|%s|" % name, "i"))
def pint(x):
    """Poly of an int or SInt"""
    if isinstance(x, SInt): return x.poly
    if isinstance(x, Poly): return x
    return Poly.const(int(x))


def zint(x): return CTX.z(pint(x))


def deq(p, q):
    """are two dimensions equal on this path?"""
    if p == q: return True
    d = p - q
    if d.is_const(): return False
    return CTX.implied(CTX.z(p) == CTX.z(q))
