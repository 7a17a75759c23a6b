"""Laurent polynomials over named atoms with exact Gaussian-rational coefficients.

An atom is a `Sym` (name, kind, conj).  kind: 'i' integer, 'r' real scalar, 'c' complex scalar.
Exponents are integers; negative exponents mean division by a non-zero atom (the non-zero-ness is an
assumption the engine records when it divides)."""
from fractions import Fraction
from collections import namedtuple

Sym = namedtuple("Sym", "name kind conj")


class Unsupported(Exception):
    """The construct is outside the fragment of the verifier: *undecided*, never a violation."""


class G:
    """Gaussian rational"""
    __slots__ = ("a", "b")

    def __init__(s, a, b=0):
        s.a = a
        s.b = b

    def __add__(s, o): return G(s.a + o.a, s.b + o.b)
    def __mul__(s, o):
        if s.b == 0 and o.b == 0: return G(s.a * o.a, 0)
        return G(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    def __neg__(s): return G(-s.a, -s.b)
    def conj(s): return G(s.a, -s.b)
    def inv(s):
        n = Fraction(s.a * s.a + s.b * s.b)
        return G(s.a / n, -s.b / n)
    def zero(s): return s.a == 0 and s.b == 0
    def __eq__(s, o): return s.a == o.a and s.b == o.b
    def __hash__(s): return hash((s.a, s.b))
    def __repr__(s):
        if s.b == 0: return str(s.a)
        return "(%s%+sj)" % (s.a, s.b)


def _num(x):
    """exact Gaussian rational of a Python/numpy number"""
    if isinstance(x, bool): return G(int(x))
    if isinstance(x, (int, Fraction)): return G(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("non-finite number")
        f = Fraction(x)
        return G(f.numerator if f.denominator == 1 else f)
    if isinstance(x, complex):
        a, b = _num(x.real), _num(x.imag)
        return G(a.a, b.a)
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return _num(x.item())
    return None


class Poly:
    __slots__ = ("t", "_h")
    is_polyscalar = False
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(s, t=None):
        s.t = t or {}
        s._h = None

    # construction ------------------------------------------------------------------------------
    @staticmethod
    def const(x):
        if isinstance(x, Poly): return x
        if getattr(type(x), "is_polyscalar", False): return x.poly
        g = x if isinstance(x, G) else _num(x)
        if g is None: raise Unsupported("not a number: %r" % (type(x),))
        return Poly({} if g.zero() else {(): g})

    @staticmethod
    def atom(name, kind="r"):
        return Poly({((Sym(name, kind, False), 1),): G(1)})

    # arithmetic --------------------------------------------------------------------------------
    def __add__(s, o):
        o = _aspoly(o)
        if o is NotImplemented: return o
        r = dict(s.t)
        for m, c in o.t.items():
            if m in r:
                v = r[m] + c
                if v.zero(): del r[m]
                else: r[m] = v
            else: r[m] = c
        return Poly(r)
    __radd__ = __add__

    def __neg__(s): return Poly({m: -c for m, c in s.t.items()})
    def __pos__(s): return s
    def __sub__(s, o):
        o = _aspoly(o)
        return o if o is NotImplemented else s + (-o)
    def __rsub__(s, o):
        o = _aspoly(o)
        return o if o is NotImplemented else o + (-s)

    def __mul__(s, o):
        o = _aspoly(o)
        if o is NotImplemented: return o
        r = {}
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m = _mulmono(m1, m2)
                c = c1 * c2
                if m in r:
                    v = r[m] + c
                    if v.zero(): del r[m]
                    else: r[m] = v
                else: r[m] = c
        return Poly(r)
    __rmul__ = __mul__

    def inv(s):
        if len(s.t) != 1: raise Unsupported("division by a sum: %s" % s)
        (m, c), = s.t.items()
        return Poly({tuple((a, -e) for a, e in m): c.inv()})

    def __truediv__(s, o):
        o = _aspoly(o)
        if o is NotImplemented: return o
        q = s.exact_div(o)
        return q if q is not None else s * o.inv()

    def __rtruediv__(s, o):
        o = _aspoly(o)
        return o if o is NotImplemented else o / s

    def __pow__(s, n):
        n = int(n)
        if n < 0: return s.inv() ** (-n)
        r = Poly.const(1)
        for _ in range(n): r = r * s
        return r

    def exact_div(s, o):
        """s/o for monomial o; None otherwise"""
        if len(o.t) == 1: return s * o.inv()
        if s == o: return Poly.const(1)
        # try polynomial division by leading term
        return _polydiv(s, o)

    def conj(s):
        return Poly({tuple(sorted(((a._replace(conj=not a.conj) if a.kind == "c" else a), e) for a, e in m)): c.conj()
                     for m, c in s.t.items()})
    conjugate = conj

    @property
    def real(s): return (s + s.conj()) * Fraction(1, 2)
    @property
    def imag(s): return (s - s.conj()) * Poly.const(G(0, Fraction(-1, 2)))

    # queries -----------------------------------------------------------------------------------
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def value(s):
        """python number when constant"""
        if not s.t: return 0
        g = s.t[()]
        if g.b == 0:
            a = g.a
            return int(a) if Fraction(a).denominator == 1 else a
        return complex(g.a, g.b)
    def atoms(s): return {a for m in s.t for a, _ in m}
    def iszero(s): return not s.t
    def __eq__(s, o):
        o = _aspoly(o)
        return False if o is NotImplemented else s.t == o.t
    def __ne__(s, o): return not s == o
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.t.items()))
        return s._h
    def __bool__(s):
        if s.is_const(): return bool(s.t)
        raise Unsupported("truth value of symbolic scalar %s" % s)

    def subst(s, f):
        """f: Sym -> Poly or None"""
        r = Poly()
        for m, c in s.t.items():
            p = Poly({(): c})
            for a, e in m:
                v = f(a)
                if v is None: v = Poly({((a, 1),): G(1)})
                p = p * (v ** e)
            r = r + p
        return r

    def __deepcopy__(s, m): return s
    def __copy__(s): return s

    def isint(s):
        return all(c.b == 0 and Fraction(c.a).denominator == 1 and all(a.kind == "i" and e > 0 for a, e in m)
                   for m, c in s.t.items())

    def __repr__(s):
        if not s.t: return "0"
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: ([(str(a.name), a.conj, e) for a, e in x[0]], str(x[1]))):
            f = ["%s%s%s" % (a.name, "~" if a.conj else "", "" if e == 1 else "^%d" % e) for a, e in m]
            if not f: out.append(str(c))
            elif c == G(1): out.append("*".join(f))
            else: out.append("*".join([str(c)] + f))
        return "+".join(out)


def _aspoly(o):
    if isinstance(o, Poly): return o
    if getattr(type(o), "is_polyscalar", False): return o.poly
    g = _num(o)
    if g is None: return NotImplemented
    return Poly({} if g.zero() else {(): g})


def _mulmono(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v: d[a] = v
        else: del d[a]
    return tuple(sorted(d.items()))


def _lead(p):
    return max(p.t.items(), key=lambda x: (sum(e for _, e in x[0]), [(str(a.name), e) for a, e in x[0]]))


def _polydiv(s, o):
    q = Poly()
    r = s
    lm, lc = _lead(o)
    for _ in range(20):
        if r.iszero(): return q
        m, c = _lead(r)
        mm = _mulmono(m, tuple((a, -e) for a, e in lm))
        if any(e < 0 for _, e in mm): return None
        t = Poly({mm: c * lc.inv()})
        q = q + t
        r = r - t * o
    return None
