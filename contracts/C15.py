"""C15: 64-bit words and fixed-particle-number bases.  Words are z3 bit-vectors of 64 bits; all 64 positions are enumerated."""
import math, sys
from .base import *
R = Registry()
W = 64


class BV:
    """np.uint64"""
    __hash__ = None
    def __init__(s, e): s.e = e
    def _o(s, o):
        if isinstance(o, BV): return o.e
        raise Unsupported("operation of np.uint64 with %s" % type(o).__name__)
    def _c(s, o):
        if isinstance(o, BV): return o.e
        if isinstance(o, int) and 0 <= o < 2 ** 64: return z3.BitVecVal(o, W)
        raise Unsupported("comparison of np.uint64 with %r" % (o,))
    def __and__(s, o): return BV(s.e & s._o(o))
    def __or__(s, o): return BV(s.e | s._o(o))
    def __xor__(s, o): return BV(s.e ^ s._o(o))
    def __add__(s, o): return BV(s.e + s._o(o))
    def __sub__(s, o): return BV(s.e - s._o(o))
    def __invert__(s): return BV(~s.e)
    def __lshift__(s, o): return BV(s.e << s._o(o))
    def __rshift__(s, o): return BV(z3.LShR(s.e, s._o(o)))
    def __eq__(s, o): return core.SBool(s.e == s._c(o))
    def __ne__(s, o): return core.SBool(s.e != s._c(o))
    def __lt__(s, o): return core.SBool(z3.ULT(s.e, s._c(o)))
    def __le__(s, o): return core.SBool(z3.ULE(s.e, s._c(o)))
    def __gt__(s, o): return core.SBool(z3.UGT(s.e, s._c(o)))
    def __ge__(s, o): return core.SBool(z3.UGE(s.e, s._c(o)))
    def __bool__(s): return bool(s != 0)
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("np.uint64.%s" % k)


def uint64(x=0):
    if isinstance(x, BV): return x
    if isinstance(x, core.SBool): return BV(z3.If(x.f, z3.BitVecVal(1, W), z3.BitVecVal(0, W)))
    if isinstance(x, (int, float)) and 0 <= x < 2 ** 64: return BV(z3.BitVecVal(int(x), W))
    raise Unsupported("np.uint64 of %r" % (x,))


NP = A.Namespace("np", uint64=uint64, bitwise_and=lambda a, b: a & b, bitwise_or=lambda a, b: a | b, bitwise_xor=lambda a, b: a ^ b,
                 bitwise_not=lambda a: ~a, invert=lambda a: ~a, left_shift=lambda a, b: a << b, right_shift=lambda a, b: a >> b)


def mod():
    m = world().load("lib.utils.binaryoperations")
    if "np" in m.__dict__: m.np = NP
    return m


def word(name="b"): return BV(z3.BitVec(name, W))


def word_eq(name, got, want):
    if not isinstance(got, BV): return C().ob(name, False, "z3", "returned %s, not an unsigned 64-bit word" % type(got).__name__)
    return C().prove_z(name, got.e == want)


@R.group("bits", ["binaryoperations.setBit", "binaryoperations.unsetBit", "binaryoperations.flipBit", "binaryoperations.getBit"], maxpaths=2000)
def _():
    m = mod()
    p = C().choose(W, "pos")
    w = C().choose(4)
    b = word()
    one = z3.BitVecVal(1 << p, W)
    if w == 0: word_eq("setBit", call("setBit", m.setBit, b, p), b.e | one)
    if w == 1: word_eq("unsetBit", call("unsetBit", m.unsetBit, b, p), b.e & ~one)
    if w == 2: word_eq("flipBit", call("flipBit", m.flipBit, b, p), b.e ^ one)
    if w == 3:
        got = call("getBit", m.getBit, b, p)
        bit = z3.Extract(p, p, b.e)
        if isinstance(got, BV): C().prove_z("getBit", z3.And(z3.ULE(got.e, 1), z3.Extract(0, 0, got.e) == bit))
        elif isinstance(got, core.SBool): C().prove_z("getBit", got.f == (bit == 1))
        elif isinstance(got, (int, bool)) and got in (0, 1): C().prove_z("getBit", bit == int(got))
        else: C().ob("getBit", False, "z3", "returned %r" % (got,))


class GenSet:
    """contract of binarybasis(n,k): the list of all words below 2^n with k set bits, each once.
    Iterating yields one generic element; the consumer may only build its output element by element."""
    def __init__(s, n, k): s.n, s.k = n, k
    def __iter__(s):
        fr = sys._getframe(1)
        before = dict(fr.f_locals)
        lens = {id(x): (x, list.__len__(x)) for x in before.values() if isinstance(x, list)}
        BASES.append((s.n, s.k))
        g = BV(z3.BitVec("n", W))
        g.src = (s.n, s.k)
        yield g
        after = fr.f_locals
        for q, v in before.items():
            if q in after and after[q] is not v and not isinstance(v, BV): raise Unsupported("variable %s carries state through the loop over the basis" % q)
        for x, l in lens.values():
            for y in list.__getitem__(x, slice(l, None)):
                if not isinstance(y, BV): raise Unsupported("list of %s" % type(y).__name__)
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise Unsupported("basis.%s" % k)


BASES = []
_memo = {}


def entry(e):
    """(bits, constant ones, has generic variable) of a result word as a function of the generic word n"""
    # hash-consed terms: identical terms share their id while a reference is kept
    key = e.get_id()
    if key not in _memo:
        n = z3.BitVec("n", W)
        bits = []
        for i in range(W):
            b = z3.simplify(z3.Extract(i, i, e))
            if z3.is_bv_value(b): bits.append(b.as_long())
            else:
                for j in range(W):
                    if b.eq(z3.simplify(z3.Extract(j, j, n))):
                        bits.append(("n", j))
                        break
                else: raise Unsupported("bit %d of a basis word is %s" % (i, b))
        _memo[key] = (tuple(bits), any(str(d) == "n" for d in consts(e)), e)
    return _memo[key]


def restrict(bits, n):
    """bits at and above position n of a generic word below 2^n vanish"""
    return tuple(0 if isinstance(b, tuple) and b[1] >= n else b for b in bits)


@R.group("binarybasis", ["binaryoperations.binarybasis", "binaryoperations.setBit"])
def _():
    """induction over the recursive calls; all 0<=N<=64 and all 0<=Nup<=N+1 are enumerated (a word holds 64 sites)"""
    m = mod()
    real = m.binarybasis
    calls = []
    seen = set()
    for N in range(W + 1):
        for k in range(N + 2):
            del BASES[:]

            def stub(n, q):
                if not (isinstance(n, int) and isinstance(q, int)): raise Unsupported("binarybasis of symbolic arguments")
                if not (0 <= n <= N and 0 <= q <= k and (n, q) != (N, k)): raise VCFail("binarybasis.decreases", "recursive call (%s,%s) from (%s,%s)" % (n, q, N, k))
                return GenSet(n, q)
            with patched(m, binarybasis=stub): got = call("binarybasis", real, N, k)
            if isinstance(got, GenSet):
                ok = math.comb(got.n, got.k) == math.comb(N, k) and got.k == k and got.n <= N
                if not ok: return C().ob("binarybasis.delegation", False, "engine", "basis of (%s,%s) returned for (%s,%s)" % (got.n, got.k, N, k))
                continue
            if not isinstance(got, VList): raise Unsupported("result %s" % type(got).__name__)
            items = list(got)
            gens = list(BASES)
            tot, sets, g = 0, [], 0
            for x in items:
                if not isinstance(x, BV): return C().ob("binarybasis.word-type", False, "engine", "%s in the basis of (%d,%d)" % (type(x).__name__, N, k))
                bits, isgen, _ = entry(x.e)
                sets.append((isgen, bits))
            # every generic word contributes exactly one result, in order of the loops that produced them
            dep = [i for i, (x, bits) in enumerate(sets) if x]
            if len(dep) != len(gens): return C().ob("binarybasis.one-word-per-state", False, "engine", "(%d,%d): %d words from %d sub-bases" % (N, k, len(dep), len(gens)))
            out = []
            for i, (x, bits) in enumerate(sets):
                if i in dep:
                    n, q = gens[g]
                    g += 1
                    cnt = math.comb(n, q)
                    bits = restrict(bits, n)
                    ones = sum(1 for b in bits if b == 1)
                    src = sorted(b[1] for b in bits if isinstance(b, tuple))
                    inj = src == list(range(n))           # every bit of the generic word appears exactly once: injective, popcount = q + ones
                    if not inj: raise Unsupported("basis word does not contain every bit of its source")
                    pc = q + ones
                else:
                    cnt, pc = 1, sum(bits)
                top = max([j for j, b in enumerate(bits) if b != 0], default=-1)
                if cnt:
                    if pc != k: return C().ob("binarybasis.particle-number", False, "engine", "(%d,%d): words with %d particles" % (N, k, pc))
                    if top >= N and not (cnt and top < N): return C().ob("binarybasis.sites", False, "engine", "(%d,%d): words using site %d" % (N, k, top))
                    out.append(bits)
                tot += cnt
            for i in range(len(out)):
                for j in range(i):
                    kk = (out[i], out[j])
                    if kk in seen: continue
                    if not any(isinstance(a, int) and isinstance(b, int) and a != b for a, b in zip(*kk)):
                        if overlap(out[i], out[j]): return C().ob("binarybasis.duplicates", False, "z3", "(%d,%d): a word can be listed twice" % (N, k))
                    seen.add(kk)
            if tot != math.comb(N, k): return C().ob("binarybasis.complete", False, "engine", "(%d,%d): %d words instead of %d" % (N, k, tot, math.comb(N, k)))
    for nm in ("decreases", "one-word-per-state", "particle-number", "sites", "duplicates", "complete"): C().ob("binarybasis." + nm, True, "engine")


def overlap(b1, b2):
    s = z3.Solver()
    v = lambda t, b: z3.BoolVal(bool(b)) if isinstance(b, int) else z3.Bool("%s%d" % (t, b[1]))
    for a, b in zip(b1, b2): s.add(v("a", a) == v("b", b))
    return s.check() != z3.unsat


def consts(e):
    seen, todo, out = set(), [e], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        todo.extend(x.children())
    return out


@R.fallback("binarybasis", "N<=12, enumerated")
def _():
    m = mod()
    for N in range(13):
        for k in range(N + 2):
            got = [int(z3.simplify(x.e).as_long()) if isinstance(x, BV) else x for x in call("binarybasis", m.binarybasis, N, k)]
            want = [w for w in range(2 ** N) if bin(w).count("1") == k] if N <= 12 else []
            if sorted(got) != want: return C().ob("binarybasis.bounded", False, "engine", "(%d,%d)" % (N, k))
    C().ob("binarybasis.bounded", True, "engine")
