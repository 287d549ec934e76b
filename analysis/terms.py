"""Hash-consed terms, linear integer expressions and a small Fourier-Motzkin entailment test."""
from fractions import Fraction


class T:
    __slots__ = ("tag", "a", "id", "_s")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


_tab = {}


def T_(tag, *a):
    k = (tag, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.tag = tag
        t.a = a
        t.id = len(_tab)
        t._s = None
        _tab[k] = t
    return t


def show(t, d=0):
    if isinstance(t, T):
        if d > 7:
            return ".."
        if t.tag == "i":
            c, ks = t.a
            s = "+".join(("%s*%s" % (k, show(x, d + 1)) if k != 1 else show(x, d + 1)) for x, k in ks)
            return s + ("%+d" % c if c and s else str(c) if not s else "")
        if t.tag == "y":
            return "$%s%s" % (t.a[0], ":" + str(t.a[1]) if len(t.a) > 1 else "")
        if t.tag == "s":
            return repr(t.a[0])
        if t.tag in ("T", "F"):
            return t.tag
        if t.tag == "V":
            return "%s#%s(%s)" % (t.a[0].split("::")[-1], t.a[1], ",".join(show(x, d + 1) for x in t.a[2]))
        if t.tag == "adt":
            return t.a[0].split("::")[-1] + ("<%s>" % ",".join(show(x, d + 1) for x in t.a[1]) if t.a[1] else "")
        if t.tag == "fld":
            return "%s.%s%s" % (show(t.a[0], d + 1), "" if t.a[1] == 0 else "v%s." % t.a[1], t.a[2])
        return "%s(%s)" % (t.tag, ",".join(show(x, d + 1) for x in t.a))
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    return str(t)


TRUE = T_("T")
FALSE = T_("F")
UNIT = T_("tup", ())
MOVED = T_("moved")
UNINIT = T_("uninit")


def B(x):
    return TRUE if x else FALSE


def I(n):
    return T_("i", int(n), ())


def lin_of(t):
    """any integer-valued term as a linear expression"""
    if t.tag == "i":
        return t
    return T_("i", 0, ((t, 1),))


def lin(c, d):
    ks = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    return T_("i", c, ks)


def ladd(a, b, kb=1):
    a = lin_of(a)
    b = lin_of(b)
    d = dict(a.a[1])
    for x, k in b.a[1]:
        d[x] = d.get(x, 0) + k * kb
    return lin(a.a[0] + kb * b.a[0], d)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    a = lin_of(a)
    return lin(a.a[0] * k, {x: y * k for x, y in a.a[1]})


def isconst(t):
    return t.tag == "i" and not t.a[1]


def cval(t):
    return t.a[0]


def S(x):
    return T_("s", x)


# ---- traversal -------------------------------------------------------------------------------

def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tchildren(x)


def _tchildren(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tchildren(y)


LEAF = {"s", "T", "F", "fc", "moved", "uninit", "bool", "int", "float", "str", "char", "param"}
EMPTY = frozenset()


def subterms(t):
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        work += [c for c in children(x)]


def syms(t):
    """free symbols ('y') in t"""
    if t._s is None:
        if t.tag == "y":
            s = frozenset((t,))
            for c in children(t):
                s |= syms(c)
            t._s = s
        else:
            s = EMPTY
            for c in children(t):
                cs = syms(c)
                if cs:
                    s = s | cs if s else cs
            t._s = s
    return t._s


def tsub(t, m, memo=None):
    """substitute symbols (dict sym->term)"""
    if memo is None:
        memo = {}
    return _tsub(t, m, memo)


def _tsub(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        s = syms(t)
        if not s or s.isdisjoint(m.keys()):
            r = t
        elif t.tag == "i":
            r = I(t.a[0])
            for x, k in t.a[1]:
                r = ladd(r, _tsub(x, m, memo), k)
        elif t.tag == "all" and t.a[0] in m:
            m2 = {x: y for x, y in m.items() if x is not t.a[0]}
            r = T_("all", t.a[0], lin_of(_tsub(t.a[1], m, memo)), lin_of(_tsub(t.a[2], m, memo)), _asub(t.a[3], m2, {}))
        elif t.tag == "all":
            r = T_("all", t.a[0], lin_of(_tsub(t.a[1], m, memo)), lin_of(_tsub(t.a[2], m, memo)), _asub(t.a[3], m, memo))
        elif t.tag == "coll":
            r = T_("coll", t.a[0], _asub(t.a[1], m, memo), lin_of(_tsub(t.a[2], m, memo)), t.a[3])
        else:
            r = renorm(t.tag, tuple(_asub(x, m, memo) for x in t.a))
    memo[t] = r
    return r


def _asub(x, m, memo):
    if isinstance(x, T):
        return _tsub(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_asub(y, m, memo) for y in x)
    return x


_renorm = {}


def renorm(tag, a):
    f = _renorm.get(tag)
    return f(*a) if f else T_(tag, *a)


def norm_rule(tag):
    def deco(f):
        _renorm[tag] = f
        return f
    return deco


@norm_rule("fld")
def fld(base, variant, idx):
    """field idx of (variant of) base"""
    if base.tag == "V":
        if base.a[1] == variant and idx < len(base.a[2]):
            return base.a[2][idx]
        return T_("bad", "fld")
    if base.tag == "tup" and idx < len(base.a[0]):
        return base.a[0][idx]
    if base.tag in ("clo", "cor") and idx < len(base.a[2]):
        return base.a[2][idx]
    return T_("fld", base, variant, idx)


# ---- linear arithmetic -------------------------------------------------------------------------

def _tight(c, d):
    """integer tightening of  c + sum d >= 0"""
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = c // g  # floor
        d = {x: k // g for x, k in d.items()}
    return c, d


class Lin:
    """helper: unsatisfiability of a conjunction of  e >= 0  over the integers (rational FM + tightening)"""
    cache = {}

    @staticmethod
    def unsat(cons):
        key = frozenset(cons)
        r = Lin.cache.get(key)
        if r is None:
            r = Lin._unsat(key)
            Lin.cache[key] = r
        return r

    @staticmethod
    def _unsat(cons):
        cs = {}
        for e in cons:
            c, d = _tight(e.a[0], dict(e.a[1]))
            if not d:
                if c < 0:
                    return True
                continue
            k = frozenset(d.items())
            if k not in cs or cs[k] > c:
                cs[k] = c
        steps = 0
        while cs:
            # choose the variable with the fewest products
            pos = {}
            neg = {}
            for k in cs:
                for x, v in k:
                    (pos if v > 0 else neg).setdefault(x, []).append(k)
            best = None
            for x in set(pos) | set(neg):
                n = len(pos.get(x, ())) * len(neg.get(x, ())) - len(pos.get(x, ())) - len(neg.get(x, ()))
                if best is None or (n, x.id) < best[:2]:
                    best = (n, x.id, x)
            x = best[2]
            P = pos.get(x, [])
            N = neg.get(x, [])
            new = {k: c for k, c in cs.items() if not any(y is x for y, _ in k)}
            for p in P:
                dp = dict(p)
                a = dp[x]
                for n in N:
                    dn = dict(n)
                    b = -dn[x]
                    d = {}
                    for y, v in dp.items():
                        d[y] = d.get(y, 0) + v * b
                    for y, v in dn.items():
                        d[y] = d.get(y, 0) + v * a
                    d = {y: v for y, v in d.items() if v}
                    c = cs[p] * b + cs[n] * a
                    c, d = _tight(c, d)
                    if not d:
                        if c < 0:
                            return True
                        continue
                    k = frozenset(d.items())
                    if k not in new or new[k] > c:
                        new[k] = c
                    steps += 1
                    if steps > 4000:
                        return False
            cs = new
        return False
