from .rt import *


@case("C05", "overlap", ["mpsfunctions.overlap", "MPS.dot", "MPS.__dot__"], 4)
def _(r):
    mf = mfmod()
    raw = r.coin(0.25)
    m1 = rstate(r, Nmax=6, raw=raw)
    N, ds = len(m1), m1.d
    m2 = rstate(r, N=N, ds=ds, raw=r.coin(0.25))
    v1, v2 = vec(m1), vec(m2)
    p1, p2 = m1._position, m2._position
    want = np.sum(v1 * v2.conj())
    tol = 1e-9 * max(1, np.linalg.norm(v1) * np.linalg.norm(v2))
    f = r.pick(lambda a, b: mf.overlap(a, b), lambda a, b: a.dot(b), lambda a, b: a.__dot__(b))
    close(call("overlap", f, m1, m2), want, "overlap(1,2)", tol=tol)
    check(m1._position == p1 and m2._position == p2, "centre position changed")
    close(vec(m1), v1, "first state changed", tol=1e-9 * max(1, np.linalg.norm(v1)))
    close(vec(m2), v2, "second state changed", tol=1e-9 * max(1, np.linalg.norm(v2)))
    close(call("overlap", f, m2, m1), np.conj(want), "conjugate symmetry", tol=tol)
    close(call("overlap", f, m1, m1), np.linalg.norm(v1) ** 2, "overlap with itself", tol=1e-9 * max(1, np.linalg.norm(v1) ** 2))


@case("C05", "overlap-after-moves", ["mpsfunctions.overlap"], 2)
def _(r):
    mf = mfmod()
    m1 = rstate(r)
    N, ds = len(m1), m1.d
    m2 = rstate(r, N=N, ds=ds)
    want = np.sum(vec(m1) * vec(m2).conj())
    for _ in range(3):
        a, b = r.int(0, N), r.int(0, N)
        r.note(a=a, b=b)
        m1.position(a)
        m2.position(b)
        close(call("overlap", mf.overlap, m1, m2), want, "overlap depends on the centre positions", tol=1e-9 * max(1, abs(m1._Z * m2._Z)))


@case("C05", "sesquilinear", ["mpsfunctions.overlap"], 1)
def _(r):
    mf = mfmod()
    m1 = rstate(r)
    N, ds = len(m1), m1.d
    m2 = rstate(r, N=N, ds=ds)
    a, b = complex(r.scalar()), complex(r.scalar())
    base = np.sum(vec(m1) * vec(m2).conj())
    x, y = m1 * a, m2 * b
    close(call("overlap", mf.overlap, x, y), a * np.conj(b) * base, "sesquilinearity", tol=1e-9 * max(1, abs(m1._Z * m2._Z) * 4))


@case("C05", "tensor-lists", ["mpsfunctions.overlap"], 1)
def _(r):
    mf = mfmod()
    m1 = rstate(r)
    N, ds = len(m1), m1.d
    m2 = rstate(r, N=N, ds=ds)
    l1, l2 = m1.tolist(), m2.tolist()
    want = np.sum(vec_list(l1) * vec_list(l2).conj())
    c = [t.copy() for t in l1]
    close(call("overlap of lists", mf.overlap, l1, l2), want, "overlap of lists")
    check(all(np.array_equal(p, q) for p, q in zip(c, l1)), "list modified")


@case("C05", "refusals", ["mpsfunctions.overlap"], 0.3)
def _(r):
    mf = mfmod()
    m1 = rstate(r, N=3, ds=[2, 2, 2])
    m2 = rstate(r, N=4, ds=[2, 2, 2, 2])
    refuses("different lengths", mf.overlap, m1.tolist(), m2.tolist())
    bad = [r.arr((2, 2, 2)) for _ in range(3)]
    refuses("open ends of dimension 2", mf.overlap, m1.tolist(), bad)
    refuses("open ends of dimension 2", mf.overlap, bad, m1.tolist())
