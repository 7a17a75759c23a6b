"""Abstract tensors: finite sums  sum_t coef_t * prod_f symbol_f[idx...]  in the Einstein convention, for symbolic
dimensions and arbitrary entries.  Equality of two such values is decided by a canonical form modulo the rewrite
rules contributed by callee contracts (isometry of a QR factor, q*r -> X, ...)."""
import itertools, weakref
from fractions import Fraction
from . import core
from .core import SInt, SBool, VCFail, pint, deq, opaque_bool
from .poly import Poly, Unsupported, G, _num

DIM = {}
_cnt = itertools.count(1)
ONE = Poly.const(1)
ZERO = Poly()
DELTA = "\0delta"


def newid(d):
    i = next(_cnt)
    DIM[i] = d
    return i


class TSym:
    """an opaque tensor symbol"""
    reg = {}
    __slots__ = ("name", "real", "dims")

    def __init__(s, name, real, dims):
        s.name, s.real, s.dims = name, real, dims
        TSym.reg[name] = s


class Fac:
    __slots__ = ("sym", "conj", "slots", "par")

    def __init__(s, sym, conj, slots, par=None):
        s.sym, s.conj, s.slots, s.par = sym, conj, slots, par

    def ids(s):
        return [i for sl in s.slots for i, _ in sl]

    def ren(s, m):
        return Fac(s.sym, s.conj, tuple(tuple((m.get(i, i), o) for i, o in sl) for sl in s.slots), s.par)

    def cj(s):
        if s.sym in (DELTA, "\0inj") or TSym.reg[s.sym].real: return s
        return Fac(s.sym, not s.conj, s.slots, s.par)

    def __repr__(s):
        return "%s%s[%s]" % (s.sym.replace("\0", "@"), "~" if s.conj else "",
                             ",".join("(" + " ".join("%d%s" % (i, "" if o.iszero() else "+" + str(o)) for i, o in sl) + ")" for sl in s.slots))


class Net:
    """immutable value: axes (tuple of tuples of index ids) and terms [(coef, [Fac])]"""
    __slots__ = ("axes", "terms", "cx")

    def __init__(s, axes, terms, cx):
        s.axes, s.terms, s.cx = axes, terms, cx

    def open(s): return {i for a in s.axes for i in a}

    def shape(s):
        out = []
        for a in s.axes:
            p = ONE
            for i in a: p = p * DIM[i]
            out.append(SInt.mk(p))
        return tuple(out)

    def __repr__(s):
        return "Net(axes=%s; %s)" % (s.axes, " + ".join("%s*%s" % (c, f) for c, f in s.terms))


def zeros(shape, cx=False):
    return Net(tuple(_ax(d) for d in shape), [], cx)


def _ax(d):
    p = pint(d)
    return () if p == ONE else (newid(p),)


def ones(shape, cx=False):
    return Net(tuple(_ax(d) for d in shape), [(ONE, [])], cx)


def eye(d, e=None, cx=False):
    if e is not None and not deq(pint(d), pint(e)): raise Unsupported("rectangular eye")
    a, b = _ax(d), _ax(d)
    return Net((a, b), [(ONE, [Fac(DELTA, False, (((a[0], ZERO),), ((b[0], ZERO),)))] if a else [])], cx)


def symbol(name, shape, cx=False):
    """fresh opaque tensor; shape entries may be ints/SInt or tuples (fused atomic legs)"""
    axes, slots, dims = [], [], []
    for d in shape:
        ds = d if isinstance(d, tuple) else (d,)
        ax = ()
        for q in ds:
            p = pint(q)
            if p == ONE:
                i = newid(ONE)
                slots.append(((i, ZERO),))
            else:
                i = newid(p)
                ax += (i,)
                slots.append(((i, ZERO),))
            dims.append(p)
        axes.append(ax)
    if name in TSym.reg and TSym.reg[name].real != (not cx): raise Unsupported("symbol %s redeclared" % name)
    TSym(name, not cx, dims)
    return Net(tuple(axes), [(ONE, [Fac(name, False, tuple(slots))])], cx)


def scalar(p):
    p = Poly.const(p)
    return Net((), [(p, [])] if not p.iszero() else [], any(a.kind == "c" for a in p.atoms()) or any(c.b != 0 for c in p.t.values()))


# ---------------------------------------------------------------------------------------------------
def _clean(coef, facs, opn, closing=()):
    """eliminate deltas / injections; multiply by the dimension of summed indices that occur nowhere.
    `closing`: internal ids that must be accounted for.  Returns (coef, facs) or None when the term vanishes."""
    facs = list(facs)
    closing = set(closing)
    changed = True
    while changed:
        changed = False
        for k, f in enumerate(facs):
            if f.sym == DELTA:
                sa, sb = f.slots
                if len(sa) != 1 or len(sb) != 1:
                    if len(sa) != len(sb): raise Unsupported("delta with mismatched fusion")
                    facs[k:k + 1] = [Fac(DELTA, False, ((x,), (y,))) for x, y in zip(sa, sb)]
                    changed = True
                    break
                (x, ox), (y, oy) = sa[0], sb[0]
                if x == y and ox == oy:
                    del facs[k]
                    if x not in opn: closing.add(x)
                    changed = True
                    break
                if not (ox == oy):
                    # delta(x+ox, y+oy)
                    if _disjoint(ox, DIM[x], oy, DIM[y]): return None
                    raise Unsupported("partially overlapping delta")
                if not (DIM[x] == DIM[y] or deq(DIM[x], DIM[y])):
                    # sum over the shorter range dominates:  delta of a prefix range
                    raise Unsupported("delta between ranges of different length %s %s" % (DIM[x], DIM[y]))
                if y not in opn:
                    src, dst = y, x
                elif x not in opn:
                    src, dst = x, y
                else:
                    if not ox.iszero():
                        facs[k] = Fac(DELTA, False, (((x, ZERO),), ((y, ZERO),)))
                        changed = True
                        break
                    # both open: the other factors use the smaller id
                    lo_, hi_ = min(x, y), max(x, y)
                    if any(hi_ in g.ids() for j, g in enumerate(facs) if j != k):
                        facs = [g if j == k else g.ren({hi_: lo_}) for j, g in enumerate(facs)]
                        changed = True
                        break
                    continue
                del facs[k]
                facs = [g.ren({src: dst}) for g in facs]
                closing.discard(src)
                if dst not in opn: closing.add(dst)
                changed = True
                break
            if f.sym == "\0inj":
                # inj(big+o, small+p; off,size): 1 iff big+o == small+p+off
                off, size = f.par
                (b, ob), (a, oa) = f.slots[0][0], f.slots[1][0]
                for k2, g in enumerate(facs):
                    if k2 != k and g.sym == "\0inj" and g.slots[0][0] == f.slots[0][0] and (b not in opn):
                        if sum(1 for h in facs if b in h.ids()) > 2: continue
                        goff, gsize = g.par
                        (c_, oc) = g.slots[1][0]
                        if goff + oc == off + oa and deq(DIM[c_], DIM[a]):
                            new = Fac(DELTA, False, (((a, ZERO),), ((c_, ZERO),)))
                            facs = [h for j, h in enumerate(facs) if j not in (k, k2)] + [new]
                            closing.discard(b)
                            changed = True
                            break
                        if _disjoint(off + oa, DIM[a], goff + oc, DIM[c_]): return None
                        raise Unsupported("partially overlapping blocks")
                if changed: break
                if a not in opn and b not in opn:
                    pass
                if (b not in opn) and not any(b in h.ids() for j, h in enumerate(facs) if j != k):
                    # summed big index occurs only here -> ones on the small index
                    if not ob.iszero(): raise Unsupported("offset block sum")
                    del facs[k]
                    closing.discard(b)
                    if a not in opn: closing.add(a)
                    changed = True
                    break
                if (b not in opn):
                    # sum_b inj(b,a) F[b] = F[a+off]: substitute (b,o) -> (a, o+off)
                    if not ob.iszero(): raise Unsupported("offset block sum")
                    # a block inside a block: inj(c, b; off1) inj(b, a; off2) = inj(c, a; off1 + off2)
                    sh = off + oa
                    del facs[k]
                    facs = [Fac(h.sym, h.conj, (h.slots[0], ((a, ZERO),)), (h.par[0] + h.slots[1][0][1] + sh, DIM[a])) if h.sym == "\0inj" and h.slots[1][0][0] == b else
                            Fac(h.sym, h.conj, tuple(tuple((a, o + sh) if i == b else (i, o) for i, o in sl) for sl in h.slots), h.par) for h in facs]
                    closing.discard(b)
                    if a not in opn: closing.add(a)
                    changed = True
                    break
    used = {i for f in facs for i in f.ids()}
    for i in closing:
        if i not in used and i not in opn and not (DIM[i] == ONE):
            coef = coef * DIM[i]
    return coef, facs


def _disjoint(o1, d1, o2, d2):
    return _le(o1 + d1, o2) or _le(o2 + d2, o1)


def _le(p, q):
    d = q - p
    if d.is_const(): return d.value() >= 0
    c = core.CTX
    return c.implied(c.z(p) <= c.z(q))


def _freshen(n):
    """rename every id of a Net"""
    m = {}
    for a in n.axes:
        for i in a:
            if i not in m: m[i] = newid(DIM[i])
    terms = []
    for c, fs in n.terms:
        mm = dict(m)
        for f in fs:
            for i in f.ids():
                if i not in mm: mm[i] = newid(DIM[i])
        terms.append((c, [f.ren(mm) for f in fs]))
    return Net(tuple(tuple(m[i] for i in a) for a in n.axes), terms, n.cx)


def _split(n, i, d1, d2):
    """split id i (open in n) in (i1,i2)"""
    i1, i2 = newid(d1), newid(d2)
    terms = []
    for c, fs in n.terms:
        new = []
        for f in fs:
            if i in f.ids():
                sl2 = []
                for sl in f.slots:
                    t = []
                    for j, o in sl:
                        if j == i:
                            if not o.iszero(): raise Unsupported("splitting a sliced leg")
                            t += [(i1, ZERO), (i2, ZERO)]
                        else: t.append((j, o))
                    sl2.append(tuple(t))
                if f.sym == DELTA:
                    raise Unsupported("splitting a delta leg") if True else None
                if f.sym == "\0inj": raise Unsupported("splitting a block leg")
                f = Fac(f.sym, f.conj, tuple(sl2), f.par)
            new.append(f)
        terms.append((c, new))
    axes = tuple(tuple(x for j in a for x in ((i1, i2) if j == i else (j,))) for a in n.axes)
    return Net(axes, terms, n.cx), i1, i2


def _split_delta(n, i, d1, d2):
    """as _split but deltas open on i get their partner split too"""
    for c, fs in n.terms:
        for f in fs:
            if f.sym == DELTA and i in f.ids():
                j = f.slots[0][0][0] if f.slots[1][0][0] == i else f.slots[1][0][0]
                i1, i2, j1, j2 = newid(d1), newid(d2), newid(d1), newid(d2)
                sub = {i: (i1, i2), j: (j1, j2)}
                terms = []
                for cc, gs in n.terms:
                    out = []
                    for g in gs:
                        sl2 = []
                        for sl in g.slots:
                            t = []
                            for q, o in sl:
                                if q in sub:
                                    if not o.iszero(): raise Unsupported("splitting a sliced leg")
                                    t += [(sub[q][0], ZERO), (sub[q][1], ZERO)]
                                else: t.append((q, o))
                            sl2.append(tuple(t))
                        if g.sym == DELTA and len(sl2[0]) == 2:
                            out.append(Fac(DELTA, False, ((sl2[0][0],), (sl2[1][0],))))
                            out.append(Fac(DELTA, False, ((sl2[0][1],), (sl2[1][1],))))
                        else: out.append(Fac(g.sym, g.conj, tuple(sl2), g.par))
                    terms.append((cc, out))
                axes = tuple(tuple(x for q in a for x in (sub[q] if q in sub else (q,))) for a in n.axes)
                return Net(axes, terms, n.cx), i1, i2
    return _split(n, i, d1, d2)


def _quot(p, q):
    """p/q when it is an integer polynomial, else None"""
    r = p.exact_div(q)
    return r if r is not None and r.isint() and not r.iszero() else None


def einsum(ops, ins, out):
    """ops: list of Net; ins: list of label lists (one label per axis); out: label list"""
    ops = [_freshen(o) for o in ops]
    for o, l in zip(ops, ins):
        if len(o.axes) != len(l): raise VCFail("rank", "einsum: rank %d vs labels %s" % (len(o.axes), l))
    occ = {}
    for k, l in enumerate(ins):
        for a, lab in enumerate(l): occ.setdefault(lab, []).append((k, a))
    # align groups per label
    for lab, pl in occ.items():
        for (k1, a1), (k2, a2) in zip(pl, pl[1:]):
            p = 0
            while True:
                g1, g2 = ops[k1].axes[a1], ops[k2].axes[a2]
                if p >= len(g1) and p >= len(g2): break
                if p >= len(g1) or p >= len(g2): _mismatch(ops, k1, a1, k2, a2)
                i, j = g1[p], g2[p]
                if DIM[i] == DIM[j] or deq(DIM[i], DIM[j]):
                    p += 1
                    continue
                q = _quot(DIM[j], DIM[i])
                if q is not None:
                    ops[k2], _, _ = _split_delta(ops[k2], j, DIM[i], q)
                    continue
                q = _quot(DIM[i], DIM[j])
                if q is not None:
                    ops[k1], _, _ = _split_delta(ops[k1], i, DIM[j], q)
                    continue
                _mismatch(ops, k1, a1, k2, a2)
        # a later split may have refined an earlier pair: re-align until stable
    stable = False
    while not stable:
        stable = True
        for lab, pl in occ.items():
            gs = [ops[k].axes[a] for k, a in pl]
            if len({len(g) for g in gs}) > 1: raise Unsupported("unstable leg alignment")
    # unify
    m = {}

    def find(i):
        while i in m: i = m[i]
        return i
    axo = {}
    for lab, pl in occ.items():
        base = ops[pl[0][0]].axes[pl[0][1]]
        axo[lab] = base
        for k, a in pl[1:]:
            for x, y in zip(base, ops[k].axes[a]):
                x, y = find(x), find(y)
                if x != y: m[y] = x
    mm = {i: find(i) for i in m}
    axes = tuple(tuple(find(i) for i in axo[l]) for l in out)
    opn = {i for a in axes for i in a}
    if len([i for a in axes for i in a]) != len(opn):
        raise Unsupported("repeated output label")
    closing = {find(i) for lab in occ for i in axo[lab]} - opn
    terms = []
    for combo in itertools.product(*[o.terms for o in ops]):
        c = ONE
        fs = []
        for cc, ff in combo:
            c = c * cc
            fs += [f.ren(mm) for f in ff]
        r = _clean(c, fs, opn, closing)
        if r is not None: terms.append(r)
    # deltas that identify two open ids created by tracing are kept
    return Net(axes, terms, any(o.cx for o in ops))


def _mismatch(ops, k1, a1, k2, a2):
    s1, s2 = ops[k1].shape()[a1], ops[k2].shape()[a2]
    if deq(pint(s1), pint(s2)): raise Unsupported("misaligned fused legs %s / %s" % (s1, s2))
    c = core.CTX
    # dimensions may differ on this path: numpy raises
    if c.branch(c.z(pint(s1)) == c.z(pint(s2))):
        raise Unsupported("dimension alignment depends on a coincidence %s == %s" % (s1, s2))
    raise VCFail("shape-match", "contraction of axes with different dimensions %s and %s" % (s1, s2))


def reshape(n, shape):
    shape = list(shape)
    if any(isinstance(x, int) and x == -1 for x in shape):
        tot = ONE
        for a in n.axes:
            for i in a: tot = tot * DIM[i]
        rest = ONE
        for x in shape:
            if not (isinstance(x, int) and x == -1): rest = rest * pint(x)
        q = _quot(tot, rest)
        if q is None: raise Unsupported("reshape -1")
        shape = [q if (isinstance(x, int) and x == -1) else x for x in shape]
    n = _freshen(n)
    flat = [i for a in n.axes for i in a]
    axes = []
    pos = 0
    flatax = Net(tuple((i,) for i in flat), n.terms, n.cx)
    for e in shape:
        e = pint(e)
        g = ()
        while not (e == ONE):
            if pos >= len(flatax.axes): _badreshape(n, shape)
            i = flatax.axes[pos][0]
            d = DIM[i]
            if d == e or deq(d, e):
                g += (i,)
                pos += 1
                e = ONE
                continue
            q = _quot(e, d)
            if q is not None:
                g += (i,)
                pos += 1
                e = q
                continue
            q = _quot(d, e)
            if q is not None:
                flatax, i1, i2 = _split_delta(flatax, i, e, q)
                ids = [x for a in flatax.axes for x in a]
                # ids of already built groups may have been renamed when a delta partner was split
                have = set(ids)
                if any(x not in have for a in axes for x in a) or any(x not in have for x in g):
                    raise Unsupported("reshape splits a delta across groups")
                flatax = Net(tuple((x,) for x in ids), flatax.terms, flatax.cx)
                g += (i1,)
                pos = ids.index(i1) + 1
                e = ONE
                continue
            _badreshape(n, shape)
        axes.append(g)
    if pos != len(flatax.axes): _badreshape(n, shape)
    return Net(tuple(axes), flatax.terms, n.cx)


def _badreshape(n, shape):
    tot = ONE
    for a in n.axes:
        for i in a: tot = tot * DIM[i]
    new = ONE
    for x in shape: new = new * pint(x)
    if deq(tot, new): raise Unsupported("misaligned reshape %s -> %s" % (n.shape(), shape))
    c = core.CTX
    if c.branch(c.z(tot) == c.z(new)): raise Unsupported("reshape depends on a coincidence of dimensions")
    raise VCFail("reshape-size", "cannot reshape %s into %s" % (n.shape(), shape))


def transpose(n, perm):
    return Net(tuple(n.axes[p] for p in perm), n.terms, n.cx)


def conj(n):
    return Net(n.axes, [(c.conj(), [f.cj() for f in fs]) for c, fs in n.terms], n.cx)


def scale(n, p):
    p = Poly.const(p)
    cx = n.cx or any(a.kind == "c" for a in p.atoms()) or any(c.b != 0 for c in p.t.values())
    if p.iszero(): return Net(n.axes, [], cx)
    return Net(n.axes, [(c * p, f) for c, f in n.terms], cx)


def align(a, b):
    """rename b's open ids to a's after refining both to common groups"""
    b = _freshen(b)
    if len(a.axes) != len(b.axes): raise VCFail("rank", "adding arrays of rank %d and %d" % (len(a.axes), len(b.axes)))
    ops = [a, b]
    for ax in range(len(a.axes)):
        p = 0
        while True:
            g1, g2 = ops[0].axes[ax], ops[1].axes[ax]
            if p >= len(g1) and p >= len(g2): break
            if p >= len(g1) or p >= len(g2): _mismatch(ops, 0, ax, 1, ax)
            i, j = g1[p], g2[p]
            if DIM[i] == DIM[j] or deq(DIM[i], DIM[j]):
                p += 1
                continue
            q = _quot(DIM[j], DIM[i])
            if q is not None:
                ops[1], _, _ = _split_delta(ops[1], j, DIM[i], q)
                continue
            q = _quot(DIM[i], DIM[j])
            if q is not None:
                ops[0], _, _ = _split_delta(ops[0], i, DIM[j], q)
                continue
            _mismatch(ops, 0, ax, 1, ax)
    a, b = ops
    m = {}
    for g1, g2 in zip(a.axes, b.axes):
        for i, j in zip(g1, g2): m[j] = i
    b = Net(a.axes, [(c, [f.ren(m) for f in fs]) for c, fs in b.terms], b.cx)
    return a, b


def add(a, b):
    # broadcasting of axes of dimension one is not a sum of equal shapes
    for x, y in zip(a.axes, b.axes):
        if bool(x) != bool(y) and len(a.axes) == len(b.axes):
            raise Unsupported("broadcasting addition")
    a, b = align(a, b)
    return Net(a.axes, a.terms + b.terms, a.cx or b.cx)


def diag(n):
    if len(n.axes) == 1:
        a = n.axes[0]
        b = tuple(newid(DIM[i]) for i in a)
        d = [Fac(DELTA, False, (((i, ZERO),), ((j, ZERO),))) for i, j in zip(a, b)]
        return Net((a, b), [(c, fs + d) for c, fs in n.terms], n.cx)
    if len(n.axes) == 2:
        return einsum([n], [["i", "i"]], ["i"])
    raise VCFail("diag-rank", "np.diag of rank %d" % len(n.axes))


def slice_axis(n, ax, lo, hi):
    """n[.., lo:hi, ..]; lo,hi Poly already validated 0<=lo<=hi<=dim; returns Net with that axis of dimension hi-lo"""
    n = _freshen(n)
    g = n.axes[ax]
    size = hi - lo
    d = ONE
    for i in g: d = d * DIM[i]
    if lo.iszero() and (hi == d or deq(hi, d)): return n
    if len(g) != 1:
        if not g and deq(lo, Poly()) and deq(hi, d): return n
        if not g: raise Unsupported("empty slice")
        raise Unsupported("slice of a fused axis")
    i = g[0]
    k = newid(size)
    opn = (n.open() - {i}) | {k}
    terms = []
    for c, fs in n.terms:
        new = []
        dead = False
        cut = None
        for f in fs:
            if i not in f.ids():
                new.append(f)
                continue
            if f.sym == DELTA:
                (x, ox), (y, oy) = f.slots[0][0], f.slots[1][0]
                j = y if x == i else x
                # delta(i=k+lo, j) -> inj(big=j, small=k; off=lo)
                new.append(Fac("\0inj", False, (((j, ZERO),), ((k, ZERO),)), (lo, size)))
                continue
            if f.sym == "\0inj":
                off, sz = f.par
                (b, ob), (a, oa) = f.slots[0][0], f.slots[1][0]
                if b == i:
                    if not oa.iszero(): raise Unsupported("slice of an offset block")
                    if deq(lo, off) and deq(size, DIM[a]):
                        new.append(Fac(DELTA, False, (((k, ZERO),), ((a, ZERO),))))
                        continue
                    if _disjoint(lo, size, off, DIM[a]):
                        dead = True
                        break
                    if _le(lo, off) and _le(off + DIM[a], hi):
                        new.append(Fac("\0inj", False, (((k, ZERO),), ((a, ZERO),)), (off - lo, sz)))
                        continue
                    if _le(off, lo) and _le(hi, off + DIM[a]) and a not in opn and oa.iszero():
                        # the slice lies inside the block: restrict the block's own index
                        cut = (a, lo - off)
                        continue
                    raise Unsupported("slice cuts through a block")
                new.append(Fac("\0inj", False, (f.slots[0], ((k, oa + lo),)), f.par))
                continue
            new.append(Fac(f.sym, f.conj, tuple(tuple((k, o + lo) if j == i else (j, o) for j, o in sl) for sl in f.slots), f.par))
        if dead: continue
        if cut is not None:
            a, sh = cut
            if any(f.sym in (DELTA, "\0inj") and a in f.ids() for f in new): raise Unsupported("slice of a nested block")
            new = [Fac(f.sym, f.conj, tuple(tuple((k, o + sh) if j == a else (j, o) for j, o in sl) for sl in f.slots), f.par) for f in new]
        r = _clean(c, new, opn, ())
        if r is not None: terms.append(r)
    axes = list(n.axes)
    axes[ax] = () if size == ONE else (k,)
    if size == ONE:
        pass
    return Net(tuple(axes), terms, n.cx)


def embed_axis(n, ax, off, total):
    """inverse of slice: place axis ax at [off, off+dim) of an axis of dimension total, zero elsewhere"""
    n = _freshen(n)
    g = n.axes[ax]
    d = ONE
    for i in g: d = d * DIM[i]
    if off.iszero() and (d == total or deq(d, total)): return n
    if len(g) > 1: raise Unsupported("embedding of a fused axis")
    a = g[0] if g else newid(ONE)
    b = newid(total)
    axes = list(n.axes)
    axes[ax] = (b,)
    opn = {i for x in axes for i in x}
    terms = []
    for c, fs in n.terms:
        r = _clean(c, fs + [Fac("\0inj", False, (((b, ZERO),), ((a, ZERO),)), (off, d))], opn, () if g else ())
        if r is not None: terms.append(r)
    return Net(tuple(axes), terms, n.cx)


# rewriting ---------------------------------------------------------------------------------------------
class Rule:
    __slots__ = ("name", "facs", "opn", "openset", "rhs", "fnames")

    def __init__(s, name, facs, opn, rhs):
        s.name, s.facs, s.opn, s.rhs = name, facs, opn, rhs
        s.openset = {i for i in opn}
        s.fnames = sorted({f.sym for f in facs})


def add_rule(name, lhs, rhs, both=True):
    """lhs (single term) -> rhs, and its complex conjugate"""
    c = core.CTX
    lhs = _freshen(lhs)
    if len(lhs.terms) != 1: raise Unsupported("rule with a sum on the left")
    lhs, rhs = align(lhs, rhs)
    coef, facs = lhs.terms[0]
    rhs = scale(rhs, coef.inv())
    order = _connected_order(facs)
    opn = [i for a in lhs.axes for i in a]
    c.rules.append(Rule(name, order, opn, rhs))
    cf = [f.cj() for f in order]
    if both and any(a.conj != b.conj for a, b in zip(cf, order)):
        c.rules.append(Rule(name + "*", cf, opn, conj(rhs)))


def _connected_order(facs):
    left = list(facs)
    out = []
    while left:
        ids = {i for f in out for i in f.ids()}
        nxt = next((f for f in left if any(i in ids for i in f.ids())), left[0])
        left.remove(nxt)
        out.append(nxt)
    return out


def _unit(cont): return all(DIM[i] == ONE and o.iszero() for i, o in cont)


def normcoef(p):
    """sqrt(x)^2 = x and |a|^2 = a conj(a) for the square roots taken on this path"""
    sq = core.CTX.data.get("sq") if core.CTX else None
    if not sq: return p
    for _ in range(6):
        hit = False
        r = Poly()
        for m, c in p.t.items():
            q = Poly({(): c})
            for a, e in m:
                v = sq.get(a.name)
                at = Poly({((a, 1),): G(1)})
                if v is not None and (e >= 2 or (e < 0 and len(v.t) == 1)):
                    q = q * v ** (e // 2) * at ** (e % 2)
                    hit = True
                else: q = q * at ** e
            r = r + q
        p = r
        if not hit: return p
    return p


def _match(rule, facs, opn):
    n = len(rule.facs)
    syms = [f.sym for f in facs]
    for nm in rule.fnames:
        if nm not in syms: return None
    patids = {i for f in rule.facs for i in f.ids()}
    internal = patids - rule.openset

    def rec(k, used, bind):
        if k == n:
            mids = {i for j in used for i in facs[j].ids()}
            oth = {i for j, f in enumerate(facs) if j not in used for i in f.ids()}
            for v in internal:
                b = bind[v]
                prod = ONE
                for i, o in b:
                    if i in opn or i in oth or not o.iszero(): return None
                    prod = prod * DIM[i]
                if not (prod == DIM[v] or deq(prod, DIM[v])): return None
            # internal ids must be distinct from one another and from ids bound to open vars
            seen = {}
            for v in patids:
                for i, o in bind[v]:
                    if i in seen and seen[i] != v and (v in internal or seen[i] in internal): return None
                    seen[i] = v
            return used, bind
        pf = rule.facs[k]
        for j, f in enumerate(facs):
            if j in used or f.sym != pf.sym or f.conj != pf.conj or f.par != pf.par: continue
            variants = [f.slots]
            if f.sym == DELTA: variants.append((f.slots[1], f.slots[0]))
            for slots in variants:
                b = dict(bind)
                ok = True
                for ps, fs in zip(pf.slots, slots):
                    if len(ps) == 1:
                        v, po = ps[0]
                        if not po.iszero():
                            # pattern slice: content must carry at least this offset
                            fs = tuple((i, o - po) for i, o in fs)
                        if DIM[v] == ONE and all(DIM[i] == ONE for i, _ in fs):
                            if v not in b: b[v] = fs
                            if len(fs) == 1 and not fs[0][1] == ZERO: ok = False; break
                            continue
                        if v in b:
                            if b[v] != fs and not (_unit(b[v]) and _unit(fs)): ok = False; break
                        else: b[v] = fs
                    else:
                        if len(ps) != len(fs): ok = False; break
                        for (v, po), cont in zip(ps, fs):
                            if not po.iszero(): ok = False; break
                            if v in b:
                                if b[v] != (cont,): ok = False; break
                            else: b[v] = (cont,)
                        if not ok: break
                if not ok: continue
                r = rec(k + 1, used | {j}, b)
                if r is not None: return r
        return None
    return rec(0, frozenset(), {})


def rewrite(n, limit=200):
    """apply all rules to a fixpoint and collect like terms"""
    rules = core.CTX.rules if core.CTX else []
    opn = n.open()
    work = list(n.terms)
    done = []
    steps = 0
    while work:
        c, fs = work.pop()
        if c.iszero(): continue
        hit = None
        for r in rules:
            m = _match(r, fs, opn)
            if m is not None:
                hit = (r, m)
                break
        if hit is None:
            done.append((c, fs))
            continue
        steps += 1
        if steps > limit + 20 * len(n.terms): raise Unsupported("rewriting does not terminate (%s)" % hit[0].name)
        r, (used, bind) = hit
        rest = [f for j, f in enumerate(fs) if j not in used]
        before = {i for f in fs for i in f.ids()} - opn
        for rc, rf in r.rhs.terms:
            mm = {}
            new = []
            for f in rf:
                sl2 = []
                for sl in f.slots:
                    t = []
                    for i, o in sl:
                        if i in bind and i in r.openset:
                            cont = bind[i]
                            if not o.iszero():
                                if len(cont) != 1: raise Unsupported("offset into fused leg")
                                cont = ((cont[0][0], cont[0][1] + o),)
                            t += list(cont)
                        elif i in r.openset:
                            raise Unsupported("unbound open leg in rule %s" % r.name)
                        else:
                            if i not in mm: mm[i] = newid(DIM[i])
                            t.append((mm[i], o))
                    sl2.append(tuple(t))
                new.append(Fac(f.sym, f.conj, tuple(sl2), f.par))
            # indices that were summed inside the pattern are gone; the others must still be summed
            pin = {i for v in bind if v not in r.openset for i, _ in bind[v]}
            res = _clean(c * rc, rest + new, opn, before - pin)
            if res is not None: work.append(res)
    return collect(Net(n.axes, done, n.cx))


# canonical form --------------------------------------------------------------------------------------
def _dimrep(d):
    """representative of a dimension modulo equality provable on this path"""
    c = core.CTX
    if c is None: return str(d)
    tab = c.data.setdefault("dimrep", {})
    if d in tab: return tab[d]
    for e, s in list(tab.items()):
        if str(e) == s and deq(d, e):
            tab[d] = s
            return s
    tab[d] = str(d)
    return tab[d]


def term_key(axes, fs, userep=False):
    """canonical string of a product of factors with the given open axes"""
    opos = {}
    k = 0
    for a in axes:
        for i in a:
            if not (DIM[i] == ONE): opos[i] = k
            k += 1
    nf = len(fs)
    ids = sorted({i for f in fs for i in f.ids() if not (DIM[i] == ONE)})
    rep = _dimrep if userep else str
    col = {i: ("o", opos[i]) if i in opos else ("i", rep(DIM[i])) for i in ids}
    base = []
    for f in fs:
        base.append("%s%s%s" % (f.sym, "~" if f.conj else "", "" if f.par is None else "{%s,%s}" % f.par))
    occ = {i: [] for i in ids}
    for k, f in enumerate(fs):
        for s, sl in enumerate(f.slots):
            for q, (i, o) in enumerate(sl):
                if i in occ: occ[i].append((k, s if f.sym != DELTA else 0, q, str(o)))

    def slots_repr(f, lab):
        sl = ["(" + " ".join(("1" if i not in lab else str(lab[i])) + ("" if o.iszero() else "+" + str(o)) for i, o in s) + ")" for s in f.slots]
        if f.sym == DELTA: sl.sort()
        return ",".join(sl)

    def refine(ic):
        ncol = len(set(ic.values()))
        while True:
            fc = ["%s[%s]" % (base[k], slots_repr(f, ic)) for k, f in enumerate(fs)]
            rank = {c: r for r, c in enumerate(sorted(set(fc)))}
            sig = {i: (str(ic[i]), tuple(sorted((rank[fc[k]], s, q, o) for k, s, q, o in occ[i]))) for i in ids}
            r2 = {c: r for r, c in enumerate(sorted(set(sig.values())))}
            nic = {i: r2[sig[i]] for i in ids}
            # keep the open/internal + dimension information in the colour
            n2 = len(set(nic.values()))
            if n2 == ncol: return nic
            ncol = n2
            ic = nic

    def search(ic):
        cl = {}
        for i in ids: cl.setdefault(ic[i], []).append(i)
        multi = sorted((c, v) for c, v in cl.items() if len(v) > 1)
        if not multi:
            order = {i: ic[i] for i in ids}
            return "|".join(sorted("%s[%s]" % (base[k], slots_repr(f, order)) for k, f in enumerate(fs))) + \
                "//" + ",".join("%d:%s" % (order[i], ("o%d" % opos[i]) if i in opos else rep(DIM[i])) for i in sorted(ids, key=lambda j: order[j]))
        c, v = multi[0]
        best = None
        for i in v:
            d = {j: 2 * x for j, x in ic.items()}
            d[i] = 2 * c - 1
            t = search(refine(d))
            if best is None or t < best: best = t
        return best
    # initial integer colours must be canonical: rank of tuples
    r0 = {c: r for r, c in enumerate(sorted(set(map(str, col.values()))))}
    body = search(refine({i: r0[str(col[i])] for i in ids})) if ids else "|".join(sorted("%s[%s]" % (base[k], slots_repr(f, {})) for k, f in enumerate(fs)))
    return body


def collect(n, userep=False):
    tab = {}
    for c, fs in n.terms:
        c = normcoef(c)
        k = term_key(n.axes, fs, userep)
        if k in tab: tab[k] = (tab[k][0] + c, tab[k][1])
        else: tab[k] = (c, fs)
    return Net(n.axes, [(c, fs) for c, fs in tab.values() if not c.iszero()], n.cx)


def key(n):
    n = rewrite(n)
    return " ++ ".join(sorted("%s * %s" % (c, term_key(n.axes, fs)) for c, fs in n.terms))


def equal(a, b):
    """(True, '') or (False, difference)"""
    if len(a.axes) != len(b.axes): return False, "ranks %d and %d" % (len(a.axes), len(b.axes))
    for x, y in zip(a.shape(), b.shape()):
        if not deq(pint(x), pint(y)): return False, "shapes %s and %s" % (a.shape(), b.shape())
    a, b = align(a, b)
    d = rewrite(Net(a.axes, a.terms + [(-c, f) for c, f in b.terms], a.cx or b.cx))
    if not d.terms: return True, ""
    d = collect(d, True)
    if not d.terms: return True, ""
    if _piecewise_zero(d): return True, ""
    return False, "difference: " + " ++ ".join("%s * %s" % (c, [str(f) for f in fs]) for c, fs in d.terms[:6])


def _piecewise_zero(d, depth=0):
    """a difference built of blocks along an open axis: compare block by block"""
    for ax, g in enumerate(d.axes):
        if len(g) != 1: continue
        i = g[0]
        cuts = []
        for c, fs in d.terms:
            for f in fs:
                if f.sym == "\0inj" and f.slots[0][0] == (i, ZERO) and f.slots[1][0][1].iszero():
                    lo = f.par[0]
                    for p in (lo, lo + DIM[f.slots[1][0][0]]):
                        if not p.iszero() and not p == DIM[i] and not deq(p, DIM[i]) and not any(p == q or deq(p, q) for q in cuts): cuts.append(p)
        if not cuts or len(cuts) > 4: continue
        srt = []
        for p in cuts:
            k = 0
            while k < len(srt) and _le(srt[k], p): k += 1
            if k < len(srt) and not _le(p, srt[k]): return False
            srt.insert(k, p)
        lo = ZERO
        try:
            for hi in srt + [DIM[i]]:
                q = rewrite(slice_axis(d, ax, lo, hi))
                if q.terms:
                    q = collect(q, True)
                    if q.terms and not (depth < 3 and _piecewise_zero(q, depth + 1)): return False
                lo = hi
        except Unsupported: return False
        return True
    return False
