"""C11: ncon is the Einstein sum over the positive labels.

The real contractor (lib/ncon/ncon.py) is executed on opaque tensors with symbolic dimensions and entries; the label networks are
enumerated up to a stated size (bounded), every contraction order and every output order of them; in addition every network
that occurs as a literal in the library is decided (that part covers all uses of ncon by the code under test)."""
import ast, glob, itertools, os
from .base import *
R = Registry()
_NC = {}


def NC():
    if "m" not in _NC:
        w = World()
        w.load("lib.ncon")
        _NC["m"] = w.load("lib.ncon.ncon")
    return _NC["m"]


class Np:
    """numpy as used by the contractor: all arrays are of type ndarray"""
    def __init__(s, np): s.np = np
    ndarray = Arr
    def __getattr__(s, k): return getattr(s.np, k)


def tr(x, offset=0, axis1=0, axis2=1):
    n = x.ndim
    if offset: raise Unsupported("offset of a trace")
    a, b = range(n)[axis1], range(n)[axis2]
    if a == b: raise VCFail("trace-axes", "trace over one axis")
    lab = [("t" if k in (a, b) else k) for k in range(n)]
    if not T.deq(pint(x.shape[a]), pint(x.shape[b])): raise VCFail("trace-axes", "trace over axes of different dimension")
    return Arr(T.einsum([x.v], [lab], [l for l in lab if l != "t"]))


class real:
    """the contractor with its array operations"""
    def __enter__(s):
        s.m = NC()
        s.p = patched(s.m, np=Np(s.m.__dict__["np"]))
        s.p.__enter__()
        s.t = Arr.trace
        Arr.trace = lambda a, offset=0, axis1=0, axis2=1: tr(a, offset, axis1, axis2)
        return s.m
    def __exit__(s, *a):
        Arr.trace = s.t
        s.p.__exit__(*a)


def tensors(v, dims=None):
    return [sym("A%d" % i, *[dim("d%d" % x) for x in l]) for i, l in enumerate(v)]


def decide(f, v, order=None, forder=None, form=0, check=True):
    ts = tensors(v)
    fo = sorted({x for l in v for x in l if x < 0}, reverse=True) if forder is None else list(forder)
    want = Arr(T.einsum([t.v for t in ts], [list(l) for l in v], fo))
    # every call gets its own lists; the caller's lists must come back as they were
    lab = VList([VList(list(l)) for l in v]) if form == 0 else tuple(VList(list(l)) for l in v)
    arr = VList(list(ts)) if form == 0 else tuple(ts)
    o, g = (None if order is None else VList(list(order))), (None if forder is None else VList(list(forder)))
    got = returned("ncon", call("ncon", f, arr, lab, order=o, forder=g, check_indices=check))
    ensure_eq("ncon.einstein-sum", got, want)
    plain = lambda x: [list(l) for l in x]
    C().ob("ncon.labels-untouched", plain(lab) == [list(l) for l in v], "engine", "%s -> %s" % (v, plain(lab)))
    C().ob("ncon.tensors-untouched", len(arr) == len(ts) and all(a is b for a, b in zip(arr, ts)), "engine")
    C().ob("ncon.orders-untouched", (o is None or list(o) == list(order)) and (g is None or list(g) == list(forder)), "engine")
    ensure_frame("ncon.frame", *ts)


def matchings(slots, k):
    """all ways to choose k disjoint pairs of the slots"""
    if k == 0:
        yield []
        return
    for n, a in enumerate(slots):
        rest = slots[n + 1:]
        for b in rest:
            others = [x for x in rest if x != b]
            for m in matchings(others, k - 1): yield [(a, b)] + m


def networks(ranks, perms=True):
    """all label networks on tensors of the given ranks, up to the names of the contracted labels (all their orders are used)"""
    slots = [(i, j) for i, r in enumerate(ranks) for j in range(r)]
    for k in range(len(slots) // 2 + 1):
        for m in matchings(slots, k):
            used = {x for p in m for x in p}
            free = [s for s in slots if s not in used]
            opens = itertools.permutations(range(len(free))) if perms else [tuple(range(len(free))), tuple(reversed(range(len(free))))][:1 + (len(free) > 1)]
            for p in opens:
                v = [[0] * r for r in ranks]
                for q, (a, b) in enumerate(m):
                    for i, j in (a, b): v[i][j] = q + 1
                for (i, j), o in zip(free, p): v[i][j] = -(o + 1)
                yield v, k


def sweep(allranks, perms=True, orders=True):
    with real() as m:
        for ranks in allranks:
            for v, k in networks(ranks, perms):
                if not v: continue
                decide(m.ncon, v)
                if orders and k > 1:
                    for o in itertools.permutations(range(1, k + 1)): decide(m.ncon, v, order=o, form=1)


@R.group("single", ["ncon", "trace", "permute_final", "create_order", "create_forder"], bounded_only=True, bound="one tensor of rank up to 5, all label patterns and orders")
def _():
    sweep([(r,) for r in range(6)])
    with real() as m:
        # a bare tensor with a bare label list
        for v, k in [x for r in range(1, 5) for x in networks((r,))]:
            t = tensors(v)[0]
            fo = sorted({x for x in v[0] if x < 0}, reverse=True)
            lab = VList(list(v[0]))
            got = returned("ncon", call("ncon", m.ncon, t, lab))
            ensure_eq("ncon.bare-tensor", got, Arr(T.einsum([t.v], [list(v[0])], fo)))
            C().ob("ncon.labels-untouched", list(lab) == v[0], "engine")


FN = ["ncon", "connect_graph", "get_tcon", "get_icon", "get_pos", "find_newv", "renew_order", "con", "trace", "permute_final"]
for _a in range(5):
    R.group("pair.%d" % _a, FN, bounded_only=True,
            bound="two tensors, the first of rank %d, the second of rank up to 4, at most 7 legs, all label patterns and contraction orders (output orders: all up to 5 legs, ascending and descending above)" % _a)(
        lambda a=_a: sweep([(a, b) for b in range(5) if a + b <= 5]) or sweep([(a, b) for b in range(5) if 5 < a + b <= 7], perms=False))
for _a in range(4):
    R.group("triple.%d" % _a, FN, bounded_only=True,
            bound="three tensors of rank up to 3 (first: rank %d) with at most 7 legs, all label patterns and contraction orders, output orders ascending and descending" % _a)(
        lambda a=_a: sweep([(a, b, c) for b in range(4) for c in range(4) if a + b + c <= 7], perms=False))


@R.group("many", ["ncon", "connect_graph"], bounded_only=True, bound="selected networks of 4 to 6 tensors: rings, chains, stars, disconnected pieces, scalars, traces, gaps between labels; all contraction orders up to 5 labels")
def _():
    nets = [[[1, -1], [1, 2], [2, 3], [3, -2]], [[4, 1], [1, 2], [2, 3], [3, 4]], [[1, 2, 3], [1, -1], [2, -2], [3, -3]], [[-1], [-2], [-3], [-4]],
            [[1], [1], [2], [2]], [[], [], [1, -1], [1]], [[], [], [], []], [[1, 1], [2, 2], [-1], [3, 3]], [[1, -2], [1, -1], [2, -4], [2, -3]],
            [[1, 1, -1], [2, -2, 2], [], [-3]], [[1, 2], [2, 1], [-2, -1], []], [[7, -1], [7, 12], [12, 40], [40, -5]], [[-10, 3], [3, -20], [5, -3], [5]],
            [[1, 2, -1], [1, 3, -2], [2, 4], [3, 4]], [[1, 2, 3], [3, 4, -1], [1, 4, 5], [2, 5, -2]], [[1], [1, 2], [2, 3], [3, 4], [4]], [[-1, 1], [1, -2], [-3, 2], [2, -4], [-5]],
            [[-1], [], [-2], [1, 1], [2, -3, 2], [-4]]]
    with real() as m:
        for v in nets:
            decide(m.ncon, v)
            pos = sorted({x for l in v for x in l if x > 0})
            neg = sorted({x for l in v for x in l if x < 0}, reverse=True)
            for o in itertools.permutations(pos): decide(m.ncon, v, order=o, check=len(o) % 2 == 0)
            for g in itertools.permutations(neg): decide(m.ncon, v, forder=g, form=1)


def literals():
    """label lists of every call of ncon in the library (extracted from the current source)"""
    out = []
    for f in sorted(glob.glob(os.path.join(loader.REPO, "lib", "**", "*.py"), recursive=True)):
        if os.sep + "ncon" + os.sep in f: continue
        with open(f) as h: src = h.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        for x in ast.walk(tree):
            if not isinstance(x, ast.Call): continue
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
            if nm != "ncon" or len(x.args) < 2: continue
            try: v = ast.literal_eval(x.args[1])
            except ValueError: continue
            if v and isinstance(v[0], int): v = [v]
            v = [list(l) for l in v]
            flat = [y for l in v for y in l]
            if all(flat.count(y) == (2 if y > 0 else 1) for y in flat): out.append(v)
    return out


@R.group("library", ["ncon", "connect_graph", "get_tcon", "get_icon", "get_pos", "find_newv", "renew_order", "con", "trace", "permute_final"], bounded_only=True,
         bound="every network written as a literal in the library; all contraction orders up to 4 labels, cyclic and reversed orders above")
def _():
    with real() as m:
        seen = set()
        for v in literals():
            k = tuple(map(tuple, v))
            if k in seen: continue
            seen.add(k)
            decide(m.ncon, v)
            pos = sorted({x for l in v for x in l if x > 0})
            os_ = itertools.permutations(pos) if len(pos) <= 4 else [pos[i:] + pos[:i] for i in range(len(pos))] + [pos[::-1]]
            for o in os_: decide(m.ncon, v, order=o)


@R.group("errors", ["do_check_indices"], bounded_only=True, bound="networks of up to 3 tensors with one defect each")
def _():
    with real() as m:
        f = m.ncon
        d, e = dim("d"), dim("e")
        assume(d != e)
        X, Y, Z = sym("X", d, d), sym("Y", e, d), sym("Z", d, d, d)
        V = lambda *l: VList([VList(list(x)) for x in l])
        bad = lambda name, ts, v, **k: ensure_raises("errors." + name, lambda: f(VList(list(ts)), v, **k))
        bad("dimension", [X, Y], V([-1, 1], [1, -2]))
        bad("dimension", [Y, X], V([1, -1], [-2, 1]))
        bad("dimension", [Y], V([1, 1]))
        bad("dimension", [Y, X, X], V([-1, 1], [1, 2], [2, -2])) if False else bad("dimension", [X, Y, X], V([-1, 1], [1, 2], [2, -2]))
        bad("number-of-lists", [X, X], V([-1, -2]))
        bad("number-of-lists", [X], V([-1, -2], [-3]))
        bad("rank", [X], V([-1, -2, -3]))
        bad("rank", [X, X], V([-1, 1], [1]))
        bad("rank", [Z], V([-1, -2]))
        bad("label-once", [X, X], V([-1, 1], [2, -2]))
        bad("label-once", [X], V([-1, 1]))
        bad("label-three-times", [X, X, X], V([-1, 1], [1, -2], [1, -3]))
        bad("label-three-times", [Z], V([1, 1, 1]))
        bad("label-four-times", [X, X], V([1, 1], [1, 1]))
        bad("open-label-twice", [X, X], V([-1, 1], [1, -1]))
        bad("open-label-twice", [X], V([-1, -1]))
