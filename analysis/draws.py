"""Exact distributions of draws: every draw of a run is a branch whose weight is a monomial of one symbolic
probability q times a rational; the weight of an outcome is a polynomial in q, compared coefficient by
coefficient in the Bernstein basis of [0, 1]."""
from fractions import Fraction
from math import comb, factorial
from itertools import permutations
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M

CELL = T_("g", "draws")


class Unmodelled(Exception):
    pass


def start(st):
    st.cells[CELL] = T_("w", 0, 0, 1, 1, FALSE)


def step(st, a=0, b=0, num=1, den=1, tag=0):
    """tag tells the branches of one draw apart: paths with equal weights are not one path"""
    w = st.cells[CELL].a
    if len(w) != 5 or not all(isinstance(x, int) for x in w[:4]):
        raise EngineLimit("draws inside a loop of unknown length")
    f = Fraction(w[2] * num, w[3] * den)
    st.cells[CELL] = T_("w", w[0] + a, w[1] + b, f.numerator, f.denominator, T_("path", w[4], tag))
    st._k = None


def weight(st):
    w = st.cells[CELL].a
    if len(w) != 5 or not all(isinstance(x, int) for x in w[:4]):
        raise EngineLimit("draws inside a loop of unknown length")
    return w[0], w[1], Fraction(w[2], w[3])


def ident(eng, st, p, depth=0):
    """p without factors of one"""
    p = eng.deref_all(st, p)
    if p.tag == "fb" and p.a[0] in ("Mul", "Div") and depth < 8:
        a, b = ident(eng, st, p.a[1], depth + 1), ident(eng, st, p.a[2], depth + 1)
        if eng.fint(st, b) == (1.0, 1.0, False):
            return a
        if p.a[0] == "Mul" and eng.fint(st, a) == (1.0, 1.0, False):
            return b
    if p.tag == "fb" and p.a[0] == "Sub" and eng.deref_all(st, p.a[1]) is FC(1.0) and depth < 8:
        a = ident(eng, st, p.a[2], depth + 1)
        if a.tag == "fb" and a.a[0] == "Sub" and eng.deref_all(st, a.a[1]) is FC(1.0):
            return ident(eng, st, a.a[2], depth + 1)
    return p


def install(e, q):
    """draws branch with their weights; q: the symbolic probability.  e.opaque collects draws without a known weight"""
    e.opaque = set()

    def coin(eng, st, p):
        p = ident(eng, st, p)
        neg = None
        if p.tag == "fb" and p.a[0] == "Sub" and eng.deref_all(st, p.a[1]) is FC(1.0):
            neg = eng.deref_all(st, p.a[2])
        out = []
        for v in (True, False):
            s = st.copy()
            if q is not None and (p is q or neg is q):
                y = v == (p is q)
                step(s, 1, 0, tag=v) if y else step(s, 0, 1, tag=v)
                out.append((s, B(v)))
            elif p.tag == "fc" and 0 <= E.fcv(p) <= 1:
                f = Fraction(E.fcv(p)) if v else 1 - Fraction(E.fcv(p))
                if f:
                    step(s, 0, 0, f.numerator, f.denominator, v)
                    out.append((s, B(v)))
            else:
                eng.opaque.add("a draw with probability %s" % show(p)[:80])
                return None
        return out

    def shuffle(eng, st, a, info):
        c = M.D(eng, st, a[0])
        n = LEN(c)
        if not isconst(n) or cval(n) > 4:
            eng.opaque.add("a shuffle")
            return None
        out = []
        n = cval(n)
        for j, pm in enumerate(permutations(range(n))):
            z = st.copy()
            step(z, 0, 0, 1, factorial(n), j)
            ss = [(z, [])]
            for i in pm:
                ss = [(y2, xs + [v]) for y, xs in ss for y2, v in M.index(eng, y, c, I(i))]
            for y, xs in ss:
                M.set_ref(eng, y, a[0], E.COLL("vec", tuple(E.ONE(E.NOKEY, x) for x in xs), I(n)))
                out.append((y, UNIT))
        return out

    def sample(eng, st, a, info):
        d = eng.deref_all(st, a[0] if info.key[0] == "D" else a[1])
        if d.tag == "bern":
            return coin(eng, st, d.a[0])
        eng.opaque.add("a draw from %s" % show(d)[:80])
        return None

    def choose(eng, st, a, info):
        x = M.D(eng, st, a[0])
        if info.key in ("SliceRandom::choose", "IndexedRandom::choose"):
            cs = [(st, x)]
        else:
            cs = M.collect(eng, st, M.arg_it(eng, st, a, info), "vec", info.pp)
        out = []
        for s, c in cs:
            n = LEN(c)
            if not isconst(n):
                eng.opaque.add("a choice among an unknown number")
                return None
            n = cval(n)
            if not n:
                out.append((s, M.NONE))
            for j in range(n):
                z = s.copy()
                step(z, 0, 0, 1, n, j)
                out += [(y, M.SOME(v)) for y, v in M.index(eng, z, c, I(j))]
        return out

    def rng_range(eng, st, a, info):
        r = M.D(eng, st, a[1])
        if r.tag == "V" and info.dty.tag == "int" and isconst(r.a[2][0]) and isconst(r.a[2][1]):
            lo, hi = cval(r.a[2][0]), cval(r.a[2][1])
            if not r.a[0].endswith("RangeInclusive"):
                hi -= 1
            if lo <= hi and hi - lo < 300:
                out = []
                for j in range(lo, hi + 1):
                    z = st.copy()
                    step(z, 0, 0, 1, hi - lo + 1, j)
                    out.append((z, I(j)))
                return out
        eng.opaque.add("a draw from a range")
        return None

    def opaque(eng, st, a, info):
        eng.opaque.add("a draw by %s" % info.key)
        return None

    o = e.overrides
    o["SliceRandom::shuffle"] = shuffle
    for k in ("Distribution::sample", "Rng::sample"):
        o[k] = sample
    for k in ("Rng::gen_bool", "Rng::random_bool"):
        o[k] = lambda eng, st, a, info: coin(eng, st, a[1])
    for k in ("SliceRandom::choose", "IteratorRandom::choose", "IndexedRandom::choose"):
        o[k] = choose
    for k in ("Rng::gen_range", "Rng::random_range"):
        o[k] = rng_range
    for k in ("Rng::gen", "Rng::random", "random::shuffle", "RngCore::next_u32", "RngCore::next_u64", "RngCore::fill_bytes", "Rng::fill",
              "SliceRandom::choose_weighted", "SliceRandom::choose_multiple", "SliceRandom::partial_shuffle", "IteratorRandom::choose_stable", "IteratorRandom::choose_multiple", "Rng::gen_ratio", "Rng::sample_iter", "Distribution::sample_iter"):
        o[k] = opaque


def bernstein(ms, N=None):
    """coefficients in the Bernstein basis (scaled by the binomials) of sum f q^a (1-q)^b"""
    N = max([a + b for a, b, f in ms], default=0) if N is None else N
    c = [Fraction(0)] * (N + 1)
    for a, b, f in ms:
        k = N - a - b
        for i in range(k + 1):
            c[a + i] += f * comb(k, i)
    return c


def value(ms, x):
    return sum((f * x ** a * (1 - x) ** b for a, b, f in ms), Fraction(0))


def nonneg(ms):
    """True: nonnegative on [0, 1]; a rational: a point where it is negative; None: undecided"""
    # common powers are factored out: they do not change the sign
    ms = [m for m in ms if m[2]]
    if not ms:
        return True
    ca, cb = min(m[0] for m in ms), min(m[1] for m in ms)
    ms = [(a - ca, b - cb, f) for a, b, f in ms]
    N = max(a + b for a, b, f in ms)
    for up in (0, 2, 8, 32):
        if all(x >= 0 for x in bernstein(ms, N + up)):
            return True
    for i in range(1, 200):
        x = Fraction(i, 200)
        if value(ms, x) < 0:
            return x
    for x in (Fraction(0), Fraction(1), Fraction(1, 10000), Fraction(9999, 10000)):
        if value(ms, x) < 0 and not (x == 0 and ca or x == 1 and cb):
            return x
    return None
