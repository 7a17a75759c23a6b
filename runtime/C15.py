from .rt import *
import math


def bomod():
    with quiet():
        import lib.utils.binaryoperations as b
    return b


def value(r):
    k = r.int(0, 4)
    if k == 0: return r.pick(0, 1, 2 ** 64 - 1, 2 ** 63, 2 ** 53, 2 ** 53 + 1, 2 ** 32, 2 ** 31)
    if k == 1: return 1 << r.int(0, 63)
    return int(r.rs.randint(0, 2 ** 32)) | (int(r.rs.randint(0, 2 ** 32)) << 32)


@case("C15", "bits", ["setBit", "unsetBit", "flipBit", "getBit"], 2)
def _(r):
    b = bomod()
    v = value(r)
    pt = r.pick(int, np.int64, np.uint64, float)
    r.note(value=v, ptype=pt.__name__)
    x = np.uint64(v)
    for p in range(64):
        q = pt(p)
        m = 1 << p
        for name, want in (("setBit", v | m), ("unsetBit", v & ~m), ("flipBit", v ^ m)):
            got = call(name, getattr(b, name), x, q)
            check(int(got) == want and got == np.uint64(want), "%s(%d,%d)" % (name, v, p), got=got, want=want)
            check(isinstance(got, np.uint64), "%s does not return an unsigned 64-bit integer" % name, got=type(got))
        got = call("getBit", b.getBit, x, q)
        check(int(got) == (v >> p) & 1, "getBit(%d,%d)" % (v, p), got=got)
    check(int(x) == v, "argument modified")


@case("C15", "sequences", ["setBit", "unsetBit", "flipBit", "getBit"], 1)
def _(r):
    b = bomod()
    v = value(r)
    x = np.uint64(v)
    ops = []
    for _ in range(r.int(1, 30)):
        p = r.int(0, 63)
        k = r.int(0, 2)
        ops.append((k, p))
        x = [b.setBit, b.unsetBit, b.flipBit][k](x, p)
        v = [v | (1 << p), v & ~(1 << p), v ^ (1 << p)][k]
        check(int(b.getBit(x, p)) == (v >> p) & 1, "bit after an operation", pos=p)
    r.note(value=v, ops=ops)
    check(int(x) == v, "value after a sequence of operations", got=int(x), want=v)


@case("C15", "basis", ["binarybasis"], 3)
def _(r):
    b = bomod()
    N = r.int(0, 12) if r.coin(0.6) else r.int(13, 64)
    ok = [k for k in range(N + 1) if math.comb(N, k) <= 3000]
    n = r.pick(*ok)
    if r.coin(0.1): n = N + r.int(1, 3)
    r.note(N=N, Nup=n)
    got = call("binarybasis", b.binarybasis, N, n)
    g = [int(x) for x in got]
    check(len(g) == (math.comb(N, n)), "number of basis states", got=len(g), want=math.comb(N, n))
    check(len(set(g)) == len(g), "a basis state is listed twice")
    for x, y in zip(g, got):
        check(bin(x).count("1") == n and x < 2 ** N, "a basis state has the wrong number of particles or too many sites", state=x)
    for x in got[:50]: check(sum(b.getBit(x, p) for p in range(64)) == n, "bits of a basis state")
