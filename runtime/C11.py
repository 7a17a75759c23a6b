from .rt import *
import string


def nc():
    import importlib
    with quiet():
        m = importlib.import_module("lib.ncon.ncon")
    return m


def reference(ts, v, forder):
    """explicit Einstein sum by enumeration with einsum on private labels"""
    labs = sorted({x for l in v for x in l})
    ch = {x: k for k, x in enumerate(labs)}
    args = []
    for t, l in zip(ts, v): args += [np.asarray(t), [ch[x] for x in l]]
    return np.einsum(*args, [ch[x] for x in forder])


def network(r, nmax=5):
    """random consistent network: every positive label twice, every negative label once"""
    n = r.int(1, nmax)
    npos = r.int(0, 4)
    nneg = r.int(0, 4)
    legs = [[] for _ in range(n)]
    dims = {}
    base = r.pick(0, 0, 5)
    pos = [base + k + 1 for k in range(npos)]
    if r.coin(0.3): pos = [p * 3 for p in pos]
    neg = [-(k + 1) for k in range(nneg)]
    for x in pos:
        dims[x] = r.int(1, 3)
        for _ in range(2): legs[r.int(0, n - 1)].append(x)
    for x in neg:
        dims[x] = r.int(1, 3)
        legs[r.int(0, n - 1)].append(x)
    for l in legs: r.rs.shuffle(l)
    ts = [r.arr([dims[x] for x in l]) if l else np.array(r.scalar()) for l in legs]
    return ts, legs, pos, neg


@case("C11", "sum", ["ncon", "connect_graph", "get_tcon", "get_icon", "get_pos", "find_newv", "renew_order", "permute_final", "create_order", "create_forder", "con", "trace"], 4)
def _(r):
    f = nc().ncon
    ts, v, pos, neg = network(r)
    order = None
    if r.coin(0.6):
        order = list(pos)
        r.rs.shuffle(order)
    forder = None
    fo = sorted(neg, reverse=True)
    if r.coin(0.3):
        forder = list(neg)
        r.rs.shuffle(forder)
        fo = list(forder)
    r.note(v=v, order=order, forder=forder, shapes=[np.shape(t) for t in ts])
    t0 = [np.array(t) for t in ts]
    v0 = [list(l) for l in v]
    o0, f0 = (None if order is None else list(order)), (None if forder is None else list(forder))
    lst = r.coin(0.7)
    arg, lab = (ts, v) if lst else (tuple(ts), tuple(v))
    got = call("ncon", f, arg, lab, order=order, forder=forder, check_indices=r.coin(0.8))
    close(np.asarray(got), reference(t0, v0, fo), "contraction")
    check(all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(ts, t0)) and len(ts) == len(t0), "tensors modified")
    check(v == v0, "label lists modified", got=v)
    check(order == o0 and forder == f0, "order lists modified", got=(order, forder))
    # a second call with the same arguments gives the same result
    close(np.asarray(call("second call of ncon", f, arg, lab, order=order, forder=forder)), reference(t0, v0, fo), "contraction (second call)")


@case("C11", "single", ["ncon", "trace", "permute_final"], 1)
def _(r):
    f = nc().ncon
    ts, v, pos, neg = network(r, 1)
    fo = sorted(neg, reverse=True)
    if not v[0]: raise Skip()
    r.note(v=v)
    close(np.asarray(call("ncon", f, ts[0], v[0])), reference(ts, v, fo), "contraction of a single tensor")


@case("C11", "orders", ["ncon"], 1)
def _(r):
    """all contraction orders of one network"""
    f = nc().ncon
    ts, v, pos, neg = network(r, 4)
    if len(pos) > 4: raise Skip()
    import itertools
    ref = reference(ts, v, sorted(neg, reverse=True))
    r.note(v=v)
    for o in itertools.permutations(pos): close(np.asarray(call("ncon", f, ts, v, order=list(o))), ref, "contraction with order %s" % (o,))


@case("C11", "errors", ["do_check_indices", "get_tcon"], 2)
def _(r):
    f = nc().ncon
    ts, v, pos, neg = network(r)
    k = r.int(0, 5)
    r.note(v=v, kind=k)
    v = [list(l) for l in v]
    idx = [(i, j) for i in range(len(v)) for j in range(len(v[i]))]
    if k == 0:
        if not pos: raise Skip()
        i, j = [(a, b) for a, b in idx if v[a][b] > 0][0]
        t = list(ts)
        sh = list(t[i].shape)
        # another dimension on one of the two ends
        p = v[i][j]
        sh[j] += 1
        t[i] = r.arr(sh)
        if v[i].count(p) == 2 and sh[j] == 1: raise Skip()
        refuses("dimension mismatch", f, t, v)
    if k == 1: refuses("number of label lists", f, ts, v + [[]] if r.coin() else v[:-1] if len(v) > 1 else v + [[]])
    if k == 2:
        i = r.int(0, len(v) - 1)
        if v[i] and r.coin(): v[i].pop()
        else: v[i].append(r.pick(77, -77))
        refuses("number of labels of a tensor", f, ts, v)
    if k == 3:
        if not pos: raise Skip()
        i, j = [(a, b) for a, b in idx if v[a][b] > 0][-1]
        v[i][j] = 99
        refuses("label featured once", f, ts, v)
    if k == 4:
        if len(neg) < 2: raise Skip()
        v = [[-1 if x == -2 else x for x in l] for l in v]
        refuses("open label featured twice", f, ts, v)
    if k == 5:
        p = 55
        v = [list(l) for l in v] + [[p], [p], [p]]
        refuses("label featured three times", f, list(ts) + [r.arr((2,)) for _ in range(3)], v)
