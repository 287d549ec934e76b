"""Operators on nodes of known shape: specification and value are written out, leaves are symbols or constants,
the recursion over nodes is written out, draws branch."""
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
import roots, draws, nodes
from nodes import SN, VN, SPEC, VAL, NAMES
from roots import MP, CP, STDRNG

PC = "cambrian::path::PathContext"
FIELDS = dict(Real="init scale min max", Int="init scale min max", Bool="init", Sub="map", Array="value_type size", AnonMap="value_type init_size min_size max_size",
              Variant="map init", Enum="values init", Optional="value_type init_present", Const="")


class Missing(Exception):
    pass


def opt(x):
    return M.NONE if x is None else M.SOME(x)


def lit(x):
    if isinstance(x, T):
        return x
    if x is None:
        return M.NONE
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, float):
        return FC(x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, list):
        return E.COLL("vec", tuple(E.ONE(E.NOKEY, lit(y)) for y in x), I(len(x)))
    if isinstance(x, dict):
        return E.COLL("map", tuple(E.ONE(lit(k), lit(v)) for k, v in x.items()), I(len(x)))
    raise TypeError(x)


class Small:
    def __init__(self, p):
        self.p = p
        for a, ks in ((SN, FIELDS), (VN, FIELDS)):
            if a not in p.adts or {v["name"] for v in p.adts[a]["variants"]} != set(ks):
                raise Missing("the node types have other variants")
        self.an = roots.Analysis(p)

    # ---- inputs ---------------------------------------------------------------------------------
    def spec(self, kind, **kw):
        i = self.p.vidx(SN, kind)
        fs = [n for n, t in self.p.adts[SN]["variants"][i]["fields"]]
        if set(fs) != set(FIELDS[kind].split()):
            raise Missing("specification node %s has other fields" % kind)
        out = []
        for n in fs:
            x = kw.get(n)
            if n in ("min", "max", "min_size", "max_size"):
                x = opt(None if x is None else lit(x))
            out.append(lit(x))
        return V(SN, i, *out)

    def val(self, kind, *xs):
        return V(VN, self.p.vidx(VN, kind), *[lit(x) for x in xs])

    def params(self, adt, **kw):
        out = []
        for n, t in self.p.adts[adt]["variants"][0]["fields"]:
            if n not in kw:
                raise Missing("%s has other fields" % adt)
            out.append(lit(kw[n]))
        return V(adt, 0, *out)

    # ---- runs -----------------------------------------------------------------------------------
    def run(self, fn, mk, setup=None, q=None, steps=400000):
        """mk(e) -> arguments.  [(engine, state, result)] of the feasible results, engine; raises EngineLimit"""
        if fn not in self.p.bodies:
            raise Missing("%s not found" % fn)
        e = self.an.engine()
        e.contract_for = None
        e.inline_rec = 12
        e.unroll_all = 48
        e.limit_steps = steps
        fresh = {}

        def next_key(eng, st, a, info):
            # any key may come out: a new one is as good as another
            return [(st, I(1000003 + 17 * fresh.setdefault(info.pp, len(fresh))))]
        e.overrides["PathNodeContext::next_key"] = next_key
        draws.install(e, q)
        if setup:
            setup(e)
        st = State()
        draws.start(st)
        args = mk(e)
        rs = e.run_fn(st, fn, (T_("adt", "cambrian::selection::SelectionImpl", ()),) if self.p.bodies[fn].generics else (), tuple(args), T_("fr", "root"))
        out = []
        for s, r in rs:
            if e.feasible(s):
                r = e.deref_all(s, r)
                if r.tag == "V" and r.a[0] == VAL:
                    r = e.deref_all(s, r.a[2][0])
                out.append((s, r))
        return e, out

    def mutate(self, spec, value, scale=1.0, setup=None, prob=1.0):
        def mk(e):
            return [V(SPEC, 0, spec), V(VAL, 0, value), self.params(MP, mutation_prob=prob, mutation_scale=scale), T_("vol", PC), T_("vol", STDRNG)]
        return self.run("cambrian::mutation::mutate", mk, setup)


# ---- bands of draws ------------------------------------------------------------------------------
def band(lo, hi):
    """every draw from a location-scale distribution lies between lo and hi scales from its location"""
    def setup(e):
        old = e.overrides["Distribution::sample"]
        e.bands = 0

        def sample(eng, st, a, info):
            d = eng.deref_all(st, a[0] if info.key[0] == "D" else a[1])
            if d.tag in ("cauchy", "normal"):
                m, w = [eng.deref_all(st, x) for x in d.a]
                if all(x.tag == "fc" and E.fcv(x) == E.fcv(x) and abs(E.fcv(x)) != E.INF for x in (m, w)):
                    m, w = E.fcv(m), E.fcv(w)
                    eng.bands += 1
                    x = eng.sym(info.pp + ("band", eng.bands), "rnd")
                    ends = sorted((m + lo * w, m + hi * w))
                    st.fi[x] = (ends[0], ends[1], False)
                    st._k = None
                    return [(st, x)]
            return old(eng, st, a, info)
        e.overrides["Distribution::sample"] = e.overrides["Rng::sample"] = sample
    return setup


def rnd(x):
    import math
    return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1) if abs(x) < 1e15 else x


RND = {"round": rnd, "floor": lambda x: float(__import__("math").floor(x)) if abs(x) < 1e15 else x, "ceil": lambda x: float(__import__("math").ceil(x)) if abs(x) < 1e15 else x,
       "trunc": lambda x: float(__import__("math").trunc(x)) if abs(x) < 1e15 else x}


def interval(e, st, t, depth=0):
    """bounds of a number, conservative"""
    W = (-E.INF, E.INF)
    if depth > 30:
        return W
    t = e.deref_all(st, t)
    r = W
    if t.tag == "fc":
        return (E.fcv(t), E.fcv(t)) if E.fcv(t) == E.fcv(t) else W
    if t.tag == "i":
        lo = hi = float(t.a[0])
        for x, k in t.a[1]:
            a, b = interval(e, st, x, depth + 1)
            lo += min(k * a, k * b)
            hi += max(k * a, k * b)
        return (lo, hi) if lo == lo and hi == hi else W
    if t.tag == "app" and isinstance(t.a[0], T) and t.a[0].tag == "s":
        f = t.a[0].a[0]
        if f == "f2i":
            a, b = interval(e, st, t.a[-1], depth + 1)
            return tuple(RND["trunc"](x) if abs(x) != E.INF else x for x in (a, b))
        if f == "i2f":
            return interval(e, st, t.a[-1], depth + 1)
        if f in RND:
            a, b = interval(e, st, t.a[-1], depth + 1)
            return tuple(RND[f](x) if abs(x) != E.INF else x for x in (a, b))
    if t.tag == "fb" and t.a[0] in ("Add", "Sub"):
        a, b = interval(e, st, t.a[1], depth + 1), interval(e, st, t.a[2], depth + 1)
        r = (a[0] + b[0], a[1] + b[1]) if t.a[0] == "Add" else (a[0] - b[1], a[1] - b[0])
        if r[0] != r[0] or r[1] != r[1]:
            r = W
    try:
        f = e.fint(st, t)
        r = (max(r[0], f[0]), min(r[1], f[1]))
    except Exception:
        pass
    return r
