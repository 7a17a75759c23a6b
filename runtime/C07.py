from .rt import *


def pair(r, **k):
    a = rstate(r, raw=r.coin(0.3), **k)
    b = rstate(r, N=len(a), ds=a.d, raw=r.coin(0.3))
    return a, b


def tl(m):
    """amplitudes from the public list export"""
    return vec_list(m.tolist()) * m._Z


def sc(*vs): return 1e-9 * max([1.0] + [float(np.linalg.norm(v)) for v in vs])


@case("C07", "add", ["MPS.__add__", "MPS.__sub__", "mpsfunctions.addMPS", "mpsfunctions.directsum", "MPS.tolist"], 3)
def _(r):
    a, b = pair(r)
    va, vb = vec(a), vec(b)
    sa, sb = snapshot(a), snapshot(b)
    op = r.pick("+", "-", "+")
    r.note(op=op)
    if op == "+": c, want = call("a+b", lambda: a + b), va + vb
    else: c, want = call("a-b", lambda: a - b), va - vb
    close(vec(c), want, "amplitudes of a%sb" % op, tol=sc(va, vb))
    close(tl(c), want, "list export of a%sb" % op, tol=sc(va, vb))
    check(len(c) == len(a), "length")
    same_snapshot(a, sa, "first operand")
    same_snapshot(b, sb, "second operand")
    # independence of the result from its operands
    for t in c._tensors: t *= 0.0
    close(vec(a), va, "operand shares memory with the sum")
    close(vec(b), vb, "operand shares memory with the sum")


@case("C07", "iadd", ["MPS.__iadd__"], 3)
def _(r):
    a, b = pair(r)
    va, vb = vec(a), vec(b)
    sb = snapshot(b)
    ref = a
    for k in range(r.int(1, 3)):
        a = call("a+=b", lambda x, y: x.__iadd__(y), a, b)
        va = va + vb
        check(a is ref, "in-place addition returned another object")
        close(vec(a), va, "amplitudes after %d in-place additions" % (k + 1), tol=sc(va, vb))
        close(tl(a), va, "list export", tol=sc(va, vb))
        if r.coin():
            p = r.int(0, len(a))
            if np.linalg.norm(va) > 1e-6:
                a.position(p)
                close(vec(a), va, "amplitudes after moving the centre of the sum", tol=10 * sc(va, vb))
    same_snapshot(b, sb, "second operand")


@case("C07", "scale", ["MPS.__mul__", "MPS.__rmul__", "MPS.__imul__", "MPS.__truediv__", "MPS.__idiv__", "MPS.__neg__"], 3)
def _(r):
    a = rstate(r, raw=r.coin(0.3))
    va, sa = vec(a), snapshot(a)
    x = r.pick(r.scalar(False), complex(r.scalar(True)), r.int(1, 5), -r.int(1, 3))
    k = r.int(0, 6)
    r.note(op=k, x=x)
    same = True
    if k == 0: c, w = call("a*x", lambda: a * x), va * x
    elif k == 1: c, w = call("x*a", lambda: x * a), va * x
    elif k == 2: c, w = call("a/x", lambda: a / x), va / x
    elif k == 3: c, w = call("-a", lambda: -a), -va
    elif k == 4: c, w = call("a*=x", a.__imul__, x), va * x
    elif k == 5: c, w = call("__idiv__", a.__idiv__, x), va / x
    else: c, w = call("+a", lambda: +a), va
    close(vec(c), w, "amplitudes", tol=sc(va, w))
    close(tl(c), w, "list export", tol=sc(va, w))
    if k in (4, 5): check(c is a, "in-place operation returned another object")
    else:
        same_snapshot(a, sa, "operand")
        c._tensors[0][...] = 0
        c._mat[...] = 0
        close(vec(a), va, "operand shares memory with the result")
    for bad in ("x", [1, 2], a): refuses("multiplication with %s" % type(bad), lambda: a.__mul__(bad))


@case("C07", "compositions", ["MPS arithmetic"], 3)
def _(r):
    N = r.int(1, 4)
    ds = [r.int(1, 3) for _ in range(N)]
    pool = [rstate(r, N=N, ds=ds, Dmax=2, raw=r.coin(0.2)) for _ in range(2)]
    vs = [vec(m) for m in pool]
    big = 1.0
    for _ in range(r.int(2, 5)):
        k = r.int(0, 5)
        i, j = r.int(0, len(pool) - 1), r.int(0, len(pool) - 1)
        x = r.pick(r.scalar(False), complex(r.scalar(True)))
        r.note(op=k, i=i, j=j)
        if k == 0: m, v = pool[i] + pool[j], vs[i] + vs[j]
        elif k == 1: m, v = pool[i] - pool[j], vs[i] - vs[j]
        elif k == 2: m, v = pool[i] * x, vs[i] * x
        elif k == 3: m, v = -pool[i], -vs[i]
        elif k == 4: m, v = pool[i].copy(), vs[i]
        else:
            if np.linalg.norm(vs[i]) > 1e-4 and max(pool[i].D) < 30: call("position", pool[i].position, r.int(0, N))
            continue
        if max(m.D) > 40: break
        pool.append(m)
        vs.append(v)
        big = max(big, float(np.linalg.norm(v)))
    for m, v in zip(pool, vs):
        close(vec(m), v, "amplitudes in a chain of operations", tol=1e-8 * big)
        close(tl(m), v, "list export in a chain of operations", tol=1e-8 * big)


@case("C07", "addMPS-lists", ["mpsfunctions.addMPS"], 1)
def _(r):
    mf = mfmod()
    obc = r.coin()
    N = r.int(1, 4)
    ds = [r.int(1, 3) for _ in range(N)]
    A, B = rtensors(r, N, ds, 3, r.coin(), obc=obc), rtensors(r, N, ds, 3, r.coin(), obc=obc)
    z1, z2 = r.scalar(), r.scalar()
    r.note(N=N, d=ds, obc=obc, z1=z1, z2=z2)
    A0, B0 = [t.copy() for t in A], [t.copy() for t in B]
    tr = lambda l: vec_list(l) if obc else vec_list(l)
    got = call("addMPS", mf.addMPS, A, z1, B, z2, obc)
    check(len(got) == N, "length")
    close(tr(got), z1 * tr(A) + z2 * tr(B), "sum of lists", tol=1e-9)
    check(all(np.array_equal(x, y) for x, y in zip(A + B, A0 + B0)), "operands modified")
    refuses("different lengths", mf.addMPS, A, z1, B + B[:1], z2, obc)
    C = [t.copy() for t in B]
    k = r.int(0, N - 1)
    C[k] = r.arr((B[k].shape[0], B[k].shape[1], ds[k] + 1))
    refuses("different physical dimensions", mf.addMPS, A, z1, C, z2, obc)


@case("C07", "directsum", ["mpsfunctions.directsum"], 0.4)
def _(r):
    mf = mfmod()
    a, b = r.arr((r.int(1, 3), r.int(1, 3))), r.arr((r.int(1, 3), r.int(1, 3)))
    r.note(a=a.shape, b=b.shape, cx=[bool(np.iscomplexobj(x)) for x in (a, b)])
    w = np.zeros((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]), dtype=complex)
    w[:a.shape[0], :a.shape[1]] = a
    w[a.shape[0]:, a.shape[1]:] = b
    close(call("directsum", mf.directsum, a, b), w, "directsum")
