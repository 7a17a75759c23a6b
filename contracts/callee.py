"""Contracts of functions of /repo as seen by their callers (each is established by the group named in the docstring)."""
from .base import *


def iso3(q, left, n):
    """rule: the tensor is an isometry"""
    if left: T.add_rule("iso", T.einsum([q.v, T.conj(q.v)], [list("abs"), list("acs")], list("bc")), T.eye(q.shape[1], cx=True))
    else: T.add_rule("iso", T.einsum([q.v, T.conj(q.v)], [list("abs"), list("cbs")], list("ac")), T.eye(q.shape[0], cx=True))


def posfactor():
    return posreal(C().fresh("Z"))


def newdim(base, *bounds):
    for b in bounds:
        if pint(b) == T.ONE: return 1
    if C().data.get("full_bonds"): return bounds[-1]
    k = dim(C().fresh(base))
    for b in bounds: assume(core.SBool(zint(k) <= zint(b)) if isinstance(b, SInt) else core.SBool(zint(k) <= int(b)))
    return k


def _mulrule(name, lhs, rhs): T.add_rule(name, lhs, rhs)


def prepareTensor(tensor, direction, fixphase=None):
    """contract of mpsfunctions.prepareTensor (group C02/prepareTensor)"""
    if not (direction != 0): raise VCFail("prepareTensor.pre", "direction 0")
    a, b, s = tensor.shape
    X = T.rewrite(tensor.v)
    Z = posfactor()
    k = newdim("Kp", b if direction > 0 else a)
    A_, B_, S_ = A._full(X)
    nm = C().fresh("pt")
    if direction > 0:
        q = Arr(A.group(T.symbol("Q" + nm, A_ + (k,) + S_, X.cx), [len(A_), 1, len(S_)]))
        r = Arr(A.group(T.symbol("r" + nm, (k,) + B_, X.cx), [1, len(B_)]))
        iso3(q, True, nm)
        T.add_rule("Qr=T/Z", T.einsum([q.v, r.v], [list("axs"), list("xb")], list("abs")), T.scale(X, A.aspoly(Z).inv()))
    else:
        q = Arr(A.group(T.symbol("Q" + nm, (k,) + B_ + S_, X.cx), [1, len(B_), len(S_)]))
        r = Arr(A.group(T.symbol("r" + nm, A_ + (k,), X.cx), [len(A_), 1]))
        iso3(q, False, nm)
        T.add_rule("rQ=T/Z", T.einsum([r.v, q.v], [list("ax"), list("xbs")], list("abs")), T.scale(X, A.aspoly(Z).inv()))
    T.add_rule("|r|=1", T.einsum([r.v, T.conj(r.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
    return q, r, Z


def prepareTruncate(tensor, direction, D=None, thresh=1e-32, r_thresh=1e-14, Z=None):
    """contract of mpsfunctions.prepareTruncate when nothing is truncated (group C02/prepareTruncate)"""
    if not (direction != 0): raise VCFail("prepareTruncate.pre", "direction 0")
    a, b, s = tensor.shape
    X = T.rewrite(tensor.v)
    Z = posfactor() if Z is None else Z
    k = newdim("Ks", b if direction > 0 else a)
    A_, B_, S_ = A._full(X)
    nm = C().fresh("tr")
    w = Arr(T.symbol("w" + nm, (k,), False))
    if direction > 0:
        q = Arr(A.group(T.symbol("U" + nm, A_ + (k,) + S_, X.cx), [len(A_), 1, len(S_)]))
        v = Arr(A.group(T.symbol("V" + nm, (k,) + B_, X.cx), [1, len(B_)]))
        iso3(q, True, nm)
        T.add_rule("VV+=1", T.einsum([v.v, T.conj(v.v)], [list("ka"), list("la")], list("kl")), T.eye(k, cx=True))
        T.add_rule("UwV=T/Z", T.einsum([q.v, w.v, v.v], [list("axs"), ["x"], list("xb")], list("abs")), T.scale(X, A.aspoly(Z).inv()))
    else:
        q = Arr(A.group(T.symbol("V" + nm, (k,) + B_ + S_, X.cx), [1, len(B_), len(S_)]))
        v = Arr(A.group(T.symbol("U" + nm, A_ + (k,), X.cx), [len(A_), 1]))
        iso3(q, False, nm)
        T.add_rule("U+U=1", T.einsum([v.v, T.conj(v.v)], [list("ak"), list("al")], list("kl")), T.eye(k, cx=True))
        T.add_rule("UwV=T/Z", T.einsum([v.v, w.v, q.v], [list("ax"), ["x"], list("xbs")], list("abs")), T.scale(X, A.aspoly(Z).inv()))
    T.add_rule("|w|=1", T.einsum([w.v, w.v], [["a"], ["a"]], []), T.scalar(Poly.const(1)))
    return (q, w, v, Z) if direction > 0 else (v, w, q, Z)


# ---- states ---------------------------------------------------------------------------------------------------------
def bonddim(nm, k): return dim("%s[%s]" % (nm, pint(k)))


def site_family(name, n, bonds="D", phys="d", cx=True):
    def fn(p):
        return sym("%s[%s]" % (name, p), bonddim(bonds, SInt.mk(p)), bonddim(bonds, SInt.mk(p + 1)), bonddim(phys, SInt.mk(p)), cx=cx)
    return VList.family(fn, n)


def mps_obj(N, tensors, pos, mat, Z, obc=True):
    """an MPS object with the given fields (representation invariant: state = Z T0..T(p-1) mat Tp..T(N-1))"""
    M = MPSM()
    m = M.MPS.__new__(M.MPS)
    m._N, m._tensors, m._position, m._mat, m._Z = N, tensors, pos, mat, Z
    m._obc, m._schmidt_thresh, m._r_thresh = obc, 1e-16, 1e-14
    m._D = sint("Dmax")
    m._dtype = A.CPLX
    m._connector = Arr(T.eye(1)) if obc else sym("connector", mat.shape[0], mat.shape[0])
    m._gamma, m._lambda = [], []
    return m


def concrete_mps(N, pos, name="T", obc=True, rect=False, cx=True):
    """symbolic entries and dimensions, concrete length and centre"""
    D = [1 if obc and k in (0, N) else dim("%sD%d" % (name, k)) for k in range(N + 1)]
    if not obc: D[N] = D[0]
    E = dim("%sE" % name) if rect and not (obc and pos in (0, N)) else D[pos]
    ts = [sym("%s%d" % (name, k), E if k == pos and rect else D[k], D[k + 1], dim("d%d" % k), cx=cx) for k in range(N)]
    m = mps_obj(N, VList(ts), pos, sym("%smat" % name, D[pos], E, cx=cx), cscalar("Z" + name), obc)
    m._d = VList([dim("d%d" % k) for k in range(N)])
    return m, ts


def amplitudes(m, ts=None):
    """spec function: amplitudes Z T0..T(p-1) mat Tp.. as a tensor (s0,..,s(N-1)) from the fields of the object"""
    ts = list(m._tensors) if ts is None else ts
    N = len(ts)
    ops, labs = [], []
    p = m._position
    bond = 0
    left = "b0"
    cur = "b0"
    for k in range(N + 1):
        if k == p:
            ops.append(A.toarr(m._mat)); labs.append([cur, "m"]); cur = "m"
        if k == N: break
        nxt = "b%d" % (k + 1)
        ops.append(ts[k]); labs.append([cur, nxt, "s%d" % k]); cur = nxt
    out = ["s%d" % k for k in range(N)]
    # close the ends
    labs = [[("b0" if l == cur and not _open(ts) else l) for l in lab] for lab in labs]
    ends = [] if not _open(ts) else ["b0", cur]
    v = Arr(T.einsum([o.v for o in ops], labs, ends[:1] + out + ends[1:]))
    if ends: v = A.reshape(v, tuple(A.shape(v)[1:-1]))
    return v * m._Z


def _open(ts): return pint(ts[0].shape[0]) == T.ONE and pint(ts[-1].shape[1]) == T.ONE


def dense(ts):
    N = len(ts)
    ops, labs, cur = [], [], "b0"
    for k in range(N):
        labs.append([cur, "b%d" % (k + 1), "s%d" % k]); ops.append(ts[k]); cur = "b%d" % (k + 1)
    out = ["s%d" % k for k in range(N)]
    v = Arr(T.einsum([A.toarr(o).v for o in ops], labs, ["b0"] + out + [cur]))
    return A.reshape(v, tuple(A.shape(v)[1:-1]))


# ---- environments over the chain ---------------------------------------------------------------------------------
class EnvInv:
    """loop invariant: the accumulator (found among the locals) equals env(cut), the recursively defined contraction;
    unfold(i) registers the definition of env for site i.  right-moving: cut = i, left-moving: cut = i+1"""
    def __init__(s, name, env, unfold, direction, skip=()):
        s.name, s.env, s.unfold, s.d, s.skip, s.acc = name, env, unfold, direction, skip, []

    def cut(s, i): return i if s.d > 0 else i + 1

    def check(s, i, locs, phase):
        want = s.env(s.cut(i))
        hit = [v for v, x in locs.items() if v in s.assigned and isinstance(x, Arr) and x.ndim == len(want.v.axes) and all(x is not q for q in s.skip) and T.equal(x.v, want.v)[0]]
        if phase == "init": s.acc[:] = hit
        else: hit = [h for h in hit if h in s.acc]
        if not hit and phase == "init": raise Unsupported("no local array equals the environment at the loop entry")
        if hit and len(hit) < len(s.acc): raise Unsupported("ambiguous accumulator: %s of %s" % (hit, s.acc))
        C().ob("%s.%s" % (s.name, phase), bool(hit), "tensor", "" if hit else "the accumulated environment differs from its definition")

    def havoc(s, i, locs):
        if not getattr(s, "at_exit", False): s.unfold(i)
        return {v: Arr(s.env(s.cut(i)).v) for v in s.acc}


def spec_addlayer(E, A_, W, B_, direction):
    b = A.conj(B_)
    if direction > 0: return spec([E, A_, W, b], ["acm", "abs", "mnst", "cdt"], "bdn")
    return spec([E, A_, W, b], ["bdn", "abs", "mnst", "cdt"], "acm")


def spec_addE(E, A_, B_, direction):
    b = A.conj(B_)
    if direction > 0: return spec([E, A_, b], ["acm", "abs", "cds"], "bdm")
    return spec([E, A_, b], ["bdm", "abs", "cds"], "acm")


def layers():
    """callee contracts of addLayer/addELayer (C03)"""
    def al(E, A_, W, B_, direction):
        if not (direction > 0 or direction < 0): return None
        return spec_addlayer(E, A_, W, B_, direction)

    def ae(E, A_, B_, direction):
        if not (direction > 0 or direction < 0): return None
        return spec_addE(E, A_, B_, direction)
    return {"addLayer": al, "addELayer": ae}


def obc_family(name, N, bonds="D", phys="d", cx=True):
    """site tensors of an open chain of symbolic length: boundary bonds are one"""
    def b(k):
        k = SInt.mk(pint(k))
        if k == 0 or k == N: return 1
        return bonddim(bonds, k)

    def fn(p):
        return sym("%s[%s]" % (name, p), b(SInt.mk(p)), b(SInt.mk(p) + 1), bonddim(phys, SInt.mk(p)), cx=cx)
    f = VList.family(fn, N)
    return f, b


def attach_position(m, name, N, canonical=False):
    """contract of MPS.__position__ (C01): the represented state is unchanged, the tensors are some other gauge of it.
    The instance gets fresh tensors, centre matrix and norm factor for every bond it is moved to.
    canonical: the tensors left (right) of the centre are left (right) isometries before and hence after every move; the
    norm factor then takes up the norm of the centre matrix at the first move and stays the same afterwards (C01/norm.lemma)."""
    cnt = [0]
    znew = cscalar("Z" + name) * posreal("norm" + name) if canonical else None

    def position(bond, schmidt_thresh=1e-16, D=None, r_thresh=1e-14):
        if not (bond >= 0) or not (bond <= N): raise VCFail("position.pre", "bond outside the chain")
        if m._position is bond or bool(m._position == bond): return
        cnt[0] += 1
        nm = "%s'%d" % (name, cnt[0])
        fam, b = obc_family(nm, N, nm + "D")
        m._tensors = m._glist = VList.family(lambda q: fam[SInt.mk(q)], N)
        m._mat = sym(nm + "mat", b(bond), b(bond))
        m._Z = cscalar("Z" + nm) if not canonical else znew
        if canonical: T.add_rule("|mat|=1", T.einsum([m._mat.v, T.conj(m._mat.v)], [list("ab"), list("ab")], []), T.scalar(Poly.const(1)))
        m._position = bond
        m._gauge = (nm, fam, m._mat, m._Z, b)
        m._moves.append((bond, m._gauge))
    if not hasattr(m, "_moves"): m._moves = []
    m.__dict__["__position__"] = position
    m.__dict__["position"] = position
    return position


def segments(gauge, k, left):
    """sites left of bond k (right of it) of a gauge as one opaque isometry (its centre is right (left) of the segment)"""
    nm, fam, mat, Z, b = gauge
    P = dim("P%s%s[%s]" % ("<" if left else ">", nm, pint(k)))
    if left:
        S = sym("S<%s[%s]" % (nm, pint(k)), P, b(k))
        T.add_rule("S<+S<=1", T.einsum([S.v, T.conj(S.v)], [list("Pa"), list("Pb")], list("ab")), T.eye(b(k), cx=True))
    else:
        S = sym("S>%s[%s]" % (nm, pint(k)), b(k), P)
        T.add_rule("S>S>+=1", T.einsum([S.v, T.conj(S.v)], [list("aP"), list("bP")], list("ab")), T.eye(b(k), cx=True))
    return S


class ListInv:
    """loop invariant of a loop that produces a list: the elements produced so far are spec(k).
    Works for accumulation by append and (target given) for element assignment in an existing list."""
    def __init__(s, name, spec, target=None, extra=None, pre=None, whole=False):
        s.name, s.spec, s.target, s.extra, s.pre, s.whole = name, spec, target, extra, pre, whole
        s.cand = None

    def lists(s):
        return [x for x, _ in s.cand] + (s.extra.lists() if hasattr(s.extra, "lists") else [])

    @property
    def fields(s): return getattr(s.extra, "fields", ())

    def begin(s, rng):
        s.lo, s.step = rng.lo, rng.step
        if abs(rng.step) != 1: raise Unsupported("list filled by a loop with stride %s" % rng.step)
        if rng.step != 1 and s.target is not None: raise Unsupported("descending loop over an existing list")
        return s

    def pick(s, rng, locs):
        """handler: this invariant if the loop has a list to produce, else None"""
        if s.target is None and not any(isinstance(x, VList) and x.sym is None and all(isinstance(y, Arr) for y in list.__iter__(x)) for x in locs.values()): return None
        return s.begin(rng)

    def check(s, i, locs, phase):
        if phase == "init":
            s.cand = []
            seen = set()
            for v, x in locs.items():
                if isinstance(x, VList) and x is not s.target and id(x) not in seen and x.sym is None and all(isinstance(y, Arr) for y in list.__iter__(x)):
                    seen.add(id(x))
                    s.cand.append((x, list(list.__iter__(x))))
            if s.target is not None:
                t = s.target
                src = t.copy()
                s.cand.append((t, src))
            if not s.cand: raise Unsupported("no list is produced by the loop")
            if s.whole:        # the elements present before the loop follow the same law (list position -> loop index)
                for x, orig in s.cand:
                    for q, y in enumerate(orig): ensure_eq(s.name + ".initial", y, s.spec(s.idx(orig, q)))
            return
        k = s.index
        done = 0
        for x, orig in s.cand:
            over = x.sym["over"][s.nover.get(id(x), 0):]
            if not over: continue
            done += 1
            if x is s.target:
                ok = len(over) == 1 and not isinstance(over[0][0], tuple) and core.deq(over[0][0], pint(k))
            else:
                ok = len(over) == 1 and not isinstance(over[0][0], tuple) and core.deq(over[0][0], pint(s.at(orig, k)))
            C().ob(s.name + ".frame", ok, "engine", "" if ok else "writes at %s during iteration %s" % ([str(o[0]) for o in over], k))
            if ok: ensure_eq(s.name + ".element", over[-1][1], s.spec(SInt.mk(pint(k))))
        if not done: raise Unsupported("no list is produced by the loop")
        if s.extra: s.extra.check(i, locs, phase)

    def idx(s, orig, q): return q - len(orig) + s.lo if s.step == 1 else s.lo - (q - len(orig))

    def at(s, orig, k): return (k - s.lo if s.step == 1 else s.lo - k) + len(orig)

    def havoc(s, i, locs):
        s.index = i
        s.nover = {}
        for x, orig in s.cand:
            if x is s.target:
                def fn(p, orig=orig, i=i):
                    q = SInt.mk(p)
                    if q >= s.lo and q < i: return s.spec(q)
                    return s.pre(q) if s.pre else orig[q]
                x.sym = {"fn": fn, "len": orig.symlen(), "over": [], "cache": {}}
            else:
                def fn(p, orig=orig):
                    q = SInt.mk(p)
                    if s.whole: return s.spec(s.idx(orig, q))
                    for k, y in enumerate(orig):
                        if q == k: return y
                    return s.spec(s.idx(orig, q))
                list.clear(x)
                x.sym = {"fn": fn, "len": SInt.mk(pint(s.at(orig, i))), "over": [], "cache": {}}
        return s.extra.havoc(i, locs) if s.extra else {}


class VecFam:
    """vector of symbolic length whose elements are given by a function of the index (replaces an array filled element by element)"""
    def __init__(s, fn, n): s.fn, s.n, s.over = fn, n, []
    shape = property(lambda s: (s.n,))
    ndim = 1
    dtype = property(lambda s: A.CPLX)
    def astype(s, t, **k): return s
    def copy(s): return VecFam(s.__getitem__, s.n)
    def __len__(s): raise Unsupported("len of a symbolic vector at C level")
    def symlen(s): return s.n

    def _idx(s, i):
        if isinstance(i, slice): raise Unsupported("slice of a symbolic vector")
        i = SInt.mk(pint(i))
        if i < 0: i = s.n + i
        if not (i >= 0) or not (i < s.n): raise VCFail("index-bounds", "index %s out of range (length %s)" % (i, s.n))
        return i

    def __getitem__(s, i):
        i = s._idx(i)
        for k, v in reversed(s.over):
            if k == i: return v
        return s.fn(i)

    def __setitem__(s, i, v):
        v = A.toarr(v)
        if v.ndim:
            if not all(core.deq(pint(d), T.ONE) for d in v.shape): raise VCFail("setitem-shape", "a tensor is assigned to one element")
            v = A.reshape(v, ())
        s.over.append((s._idx(i), v))

    def _map(s, f):
        snap = list(s.over)
        o = VecFam(s.fn, s.n)
        o.over = snap
        return VecFam(lambda i: f(A.toarr(o[i])), s.n)
    def __mul__(s, x): return s._map(lambda v: v * x)
    __rmul__ = __mul__
    def __truediv__(s, x): return s._map(lambda v: v / x)
    def __neg__(s): return s._map(lambda v: v * -1)


class VecInv(EnvInv):
    """environment accumulation that also fills a vector: element k of the processed part is vspec(k)"""
    def __init__(s, name, env, unfold, direction, vspec, N, skip=(), also=None):
        EnvInv.__init__(s, name, env, unfold, direction, skip)
        s.vspec, s.N, s.vec, s.also = vspec, N, [], also

    def check(s, i, locs, phase):
        if phase == "init":
            for v, x in locs.items():
                if v not in s.assigned: continue
                if isinstance(x, VecFam) or (isinstance(x, Arr) and x.ndim == 1 and core.deq(pint(x.shape[0]), pint(s.N)) and not x.v.terms): s.vec.append((v, x))
            if not s.vec: raise Unsupported("no vector is filled by the loop")
            s.lo = i
        if s.env is not None: EnvInv.check(s, i, locs, phase)
        if phase == "init": return
        k = s.index
        done = 0
        for v, w in s.cur:
            if locs.get(v) is not w: raise Unsupported("the vector is replaced inside the loop")
            if not w.over: continue
            done += 1
            ok = len(w.over) == 1 and core.deq(pint(w.over[0][0]), pint(k))
            C().ob(s.name + ".vector-frame", ok, "engine", "" if ok else "elements other than the current one are written")
            if ok: ensure_eq(s.name + ".vector-element", w.over[0][1], s.vspec(k))
        if not done: raise Unsupported("no vector is filled by the loop")

    def havoc(s, i, locs):
        r = EnvInv.havoc(s, i, locs) if s.env is not None else {}
        s.index, s.cur = i, []
        for v, x in s.vec:
            def fn(q, i=i, x=x):
                done = (q >= s.lo and q < i) if s.d > 0 else (q > i and q <= s.lo)
                if done: return s.vspec(q)
                return x[q] if isinstance(x, VecFam) else Arr(T.scalar(Poly.const(0)))
            w = VecFam(fn, s.N)
            s.cur.append((v, w))
            r[v] = w
        return r


def spans(rng, lo, hi, step): return rng.step == step and bool(rng.lo == lo) and bool(rng.hi == hi)


class DtypeInv:
    """loop over all sites that only promotes a dtype (local variable or field _dtype): each iteration takes it to at least the
    element type of the current site (cx: the sites are complex) and never back"""
    fields = ("_dtype",)

    def __init__(s, rng, N, cx=True):
        s.names, s.objs, s.rng, s.cx = [], [], rng, cx
        if not (rng.step == 1 and bool(rng.lo == 0) and bool(rng.hi == N)): raise Unsupported("element types of some sites are not looked at")

    @staticmethod
    def fits(locs, rng=None): return any(isinstance(x, A._np.dtype) for x in locs.values()) or (rng is not None and rng.attrs == {"_dtype"})

    def least(s, t): return A._np.result_type(t, A.CPLX if s.cx else t)

    def check(s, i, locs, phase):
        if phase == "init":
            s.names = [n for n, x in locs.items() if isinstance(x, A._np.dtype) and n in s.assigned]
            if "_dtype" in s.rng.attrs: s.objs = [x for x in locs.values() if "_dtype" in getattr(x, "__dict__", {})]
            s.first = [locs[n] for n in s.names] + [o._dtype for o in s.objs]
            return
        for t in [locs.get(n) for n in s.names] + [o._dtype for o in s.objs]:
            if not isinstance(t, A._np.dtype): raise Unsupported("dtype variable changed its kind")
            C().ob("dtype-promoted", t == s.least(s.start), "engine", "%s after an iteration" % t)

    def havoc(s, i, locs):
        if getattr(s, "at_exit", False): ts = [s.least(t) for t in s.first]
        else:
            s.start = A.CPLX if C().choose(2, "dtype") else A.FLOAT
            ts = [s.start] * (len(s.names) + len(s.objs))
        for o, t in zip(s.objs, ts[len(s.names):]): o._dtype = t
        return dict(zip(s.names, ts))


def vl(x): return x.symlen() if isinstance(x, VList) else len(x)


def state(name, N=None, obc=True, pos=None):
    """an arbitrary state: symbolic length, any centre position, rectangular centre matrices included"""
    M = MPSM()
    if N is None:
        N = sint("N")
        assume(N >= 1)
    fam, b = obc_family(name, N, name + "D")
    if pos is None:
        p = sint("pos" + name)
        assume(p >= 0); assume(p <= N)
    else: p = pos
    m = mps_obj(N, VList.family(lambda q: fam[SInt.mk(q)], N), p, sym(name + "mat", b(p), b(p)), cscalar("Z" + name))
    m._d = VList.family(lambda q: bonddim("d", SInt.mk(q)), N)
    return m, fam, p, b


def same_list(name, got, want, N):
    j = sint("jj")
    assume(j >= 0); assume(j < N)
    ensure(name + ".length", got.symlen() == N)
    ensure_eq(name, got[j], want(j))


def untouched(name, m, fam, mat, Z, p):
    ok = not m._tensors.sym["over"] and all(m._tensors[SInt.mk(q)] is t for q, t in fam.sym["cache"].items()) and all(t.version == 0 and not t._poison for t in fam.sym["cache"].values())
    C().ob(name + ".tensors", ok, "engine", "tensors of an operand were changed")
    C().ob(name + ".mat", m._mat is mat and mat.version == 0 and not mat._poison, "engine")
    C().ob(name + ".Z", m._Z is Z, "engine")
    ensure(name + ".position", m._position == p)


def posray(name, got, *wants):
    """got is a positive multiple of want (of one of equal forms of it, which the rewriting does not identify)"""
    r = [ispos(got, w) for w in wants]
    C().ob(name, any(x is None for x in r), "tensor", "not a positive multiple: %s" % r[0])


def ispos(got, want):
    g, w = T.rewrite(A.toarr(got).v), T.rewrite(A.toarr(want).v)
    if len(g.axes) != len(w.axes) or not g.terms or not w.terms: return "different structure"
    singles = [cw for cw, _ in w.terms if len(cw.t) == 1]
    if not singles: raise Unsupported("normalisation of a sum")
    for cw in singles:
        for cg, _ in g.terms:
            r = T.normcoef(cg * cw.inv())
            if len(r.t) != 1: continue
            (m, x), = r.t.items()
            if x.b == 0 and x.a > 0 and all(a in C().posatoms or e % 2 == 0 and a.kind == "r" or (a.kind == "i" and a.name.startswith("|")) for a, e in m) and T.equal(g, T.scale(w, r))[0]:
                return None
    return T.equal(g, w)[1]
