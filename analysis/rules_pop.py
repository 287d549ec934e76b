"""Rules over the algorithm core: population, sampling, ranking and report (C02, C08), and what it passes on
to its operators (C01, C12, C14, C15, C17)."""
from fractions import Fraction
from terms import *
from terms import T_, T
import engine as E
from engine import LEN
import pop
import prog as P
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_ops import short
from nodes import tainted

REACH = {
    "C02/final": (None, "an accepted evaluation completes a sample"),
    "C02/mean": (None, "an accepted evaluation completes a sample"),
    "C02/inserted": (None, "an accepted evaluation is processed"),
    "C02/rejected": (None, "a rejected evaluation is processed"),
    "C02/reported-best": (None, "an individual with a complete sample is reported"),
    "C02/not-final": (False, "a sample takes more than one evaluation"),
    "C02/values": (False, "values of an incomplete sample are kept"),
    "C08/first": (None, "a first individual is created"),
    "C08/id": (None, "later individuals are created"),
    "C08/awaits": (None, "later individuals are created"),
    "C11/first": (None, "a first individual is created"),
    "C14/entry-meta": (None, "an accepted evaluation is processed"),
    "C14/params/mutation": (None, "offspring are mutated"),
    "C15/params/mutation": (None, "offspring are mutated"),
    "C01/mutate": (None, "offspring are mutated"),
    "C01/offspring": (None, "later individuals are created"),
    "C17/recombined": ("both", "an offspring is recombined from the population"),
    "C17/mutated": ("both", "an offspring is mutated"),
    "C17/meta-adapted": ("both", "adaptive parameters of an individual of the population are adapted"),
    "C17/meta-explored": ("both", "adaptive parameters are explored afresh"),
}


def one(p, single):
    r = pop.Runs(p, single).run()
    obs = {}
    for k, s, text, data in r.obs:
        x = obs.setdefault(k, dict(text=text, n=0, bad={}))
        x["n"] += 1
        if s != "ok":
            x["bad"].setdefault((s, text), data)
    pan = []
    for w, ev in r.panics:
        d = ev.data
        t = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
        what = str(d[0]) if isinstance(d, tuple) and d else str(d)
        if what.startswith("assert:overflow") and counter(t):
            continue        # a counter of evaluations or individuals does not reach 2^64
        pan.append((ev.fn, ev.sp, what, any(tainted(x) for x in t)))
    return dict(single=single, obs=obs, limits=sorted(set(r.limits)), panics=sorted(set(pan)), steps=r.steps, fns=sorted(x for x in r.visited if isinstance(x, str)))


def counter(ts):
    return all(any(y.a[0][0] == "self" for y in syms(t) if isinstance(y.a[0], tuple) and y.a[0]) for t in ts) and bool(ts)


def runs(ctx):
    def go():
        try:
            pop.Shape(ctx.p)
        except pop.Missing as x:
            return None, str(x)
        out = []
        for s, (k, r) in zip((True, False), parallel([lambda s=s: one(ctx.p, s) for s in (True, False)])):
            if k == "ok":
                out.append(r)
            else:
                out.append(dict(single=s, obs={}, limits=[("run", str(r).strip().splitlines()[-1][:300])], panics=[], steps=0, fns=[]))
        ctx.stats["engine_steps_algorithm"] = sum(r["steps"] for r in out)
        ctx.stats["algorithm_functions"] = sorted({short(f) for r in out for f in r["fns"]})
        return out, None
    return ctx.once("pop", go)


@rule("algorithm", "C01 C02 C05 C08 C11 C12 C14 C15 C17", "abstract interpretation of the algorithm core from its initial state and from an arbitrary later state satisfying an inductive invariant, sample size 1 and greater")
def _(ctx, prop):
    rs, err = runs(ctx)
    if err:
        yield Ob("algorithm/shape", UNDECIDED, err)
        return
    seen = {}
    found = False
    lim = False
    for r in rs:
        w = "sample size %s" % ("1" if r["single"] else "> 1")
        for x in r["limits"]:
            lim = True
            yield Ob("algorithm/limit", UNDECIDED, "%s, %s: analysis gave up: %s" % ((w,) + x))
        for k, o in r["obs"].items():
            if not k.startswith(prop + "/"):
                continue
            seen.setdefault(k, set()).add(r["single"])
            if k == "C17/meta-other":
                lim = True
                continue
            if not o["bad"]:
                yield Ob("algorithm/" + k, GOOD, o["text"], w, "%d states" % o["n"])
            for (s, t), d in o["bad"].items():
                st = UNDECIDED if s == "und" else BAD
                found = found or st == BAD
                yield Ob("algorithm/" + k, st, "algorithm core: %s - not so" % t, w, d)
        if prop == "C15":
            n = 0
            for fn, sp, what, und in r["panics"]:
                n += 1
                yield Ob("algorithm/panic/%s/%s" % (short(fn), what), UNDECIDED if und or lim else BAD, "%s can panic: %s" % (short(fn), what), "%s; %s" % (sp, w))
            if not n and not r["limits"]:
                yield Ob("algorithm/panic", GOOD, "no panic in the algorithm core", w)
    for k, (s, why) in REACH.items():
        if k.startswith(prop + "/") and not found:
            miss = {True, False} - seen.get(k, set())
            if miss if s == "both" else k not in seen:
                yield Ob("algorithm/" + k, UNDECIDED if lim else BAD, "algorithm core: no path on which %s%s" % (why, " (sample size %s)" % ("1" if True in miss else "> 1") if len(miss) == 1 else ""))


# ---- the mean ---------------------------------------------------------------------------------------
def linear(e, st, t, vs, depth=0):
    """t as a linear form over vs (rational coefficients, key None: constant), or None if not recognised"""
    if depth > 40:
        return None
    t = e.deref_all(st, t)
    if t in vs:
        return {t: Fraction(1)}
    if t.tag == "fc":
        if t.a[0] in (E.INF, -E.INF) or t.a[0] != t.a[0]:
            return None
        return {None: Fraction(t.a[0])}
    if t.tag == "i" and isconst(t):
        return {None: Fraction(cval(t))}
    if t.tag == "V" and len(t.a[2]) == 1:
        return linear(e, st, t.a[2][0], vs, depth + 1)
    if t.tag == "fb":
        op, a, b = t.a
        a, b = linear(e, st, a, vs, depth + 1), linear(e, st, b, vs, depth + 1)
        if a is None or b is None:
            return None
        if op in ("Add", "Sub"):
            r = dict(a)
            for k, c in b.items():
                r[k] = r.get(k, 0) + (c if op == "Add" else -c)
            return {k: c for k, c in r.items() if c}
        if op == "Mul":
            for x, y in ((a, b), (b, a)):
                if set(x) <= {None}:
                    return {k: c * x.get(None, 0) for k, c in y.items() if c * x.get(None, 0)}
            return None
        if op == "Div" and set(b) <= {None} and b.get(None):
            return {k: c / b[None] for k, c in a.items()}
        return None
    if t.tag == "app" and t.a[0] is S("i2f"):
        return linear(e, st, t.a[1], vs, depth + 1)
    if t.tag == "app" and t.a[0] is S("fneg"):
        a = linear(e, st, t.a[1], vs, depth + 1)
        return a and {k: -c for k, c in a.items()}
    if t.tag == "app" and t.a[0] is S("fsum"):
        c = e.deref_all(st, t.a[1])
        n = LEN(c)
        if not isconst(n):
            return None
        r = {}
        for j in range(cval(n)):
            its = e.mod.item(e, st.copy(), c, I(j))
            its = [x for x in its if e.feasible(x[0])]
            if len(its) != 1:
                return None
            x = linear(e, its[0][0], its[0][2], vs, depth + 1)
            if x is None:
                return None
            for k, y in x.items():
                r[k] = r.get(k, 0) + y
        return {k: c for k, c in r.items() if c}
    return None


@rule("mean", "C02", "abstract interpretation of the summary of a sample, for 1 to 4 symbolic values, result as a linear form")
def _(ctx, prop):
    p = ctx.p
    try:
        sh = pop.Shape(p)
    except pop.Missing as x:
        yield Ob("mean/shape", UNDECIDED, str(x))
        return
    for n in (1, 2, 3, 4):
        c = pop.Core(p, sh, False)
        c.log, c.cell, c.onremove = [], T_("g", "self"), None
        e = c.engine()
        fn = getattr(c, "meanfn", None)
        if fn is None:
            yield Ob("mean/function", UNDECIDED, "the summary function was not found")
            return
        e.contracts.pop(fn)
        e.unroll_all = n + 2
        st = E.State()
        vs = [T_("y", ("v", i), (), ()) for i in range(n)]
        for v in vs:
            e.dom.fintab[v] = (-1e300, 1e300, False)
        cell = T_("g", "l")
        st.cells[cell] = E.COLL("vec", tuple(T_("one", E.NOKEY, x) for x in vs), I(n))
        try:
            rs = e.run_fn(st, fn, (), (T_("ref", cell, ()),), T_("fr", "root", "mean"))
        except E.EngineLimit as x:
            yield Ob("mean/%d" % n, UNDECIDED, "analysis gave up: %s" % x, short(fn))
            continue
        want = {v: Fraction(1, n) for v in vs}
        got = [(linear(e, s, r, set(vs)), r) for s, r in rs if e.feasible(s)]
        if not got or any(g is None for g, r in got) or e.unknown:
            yield Ob("mean/%d" % n, UNDECIDED, "the summary of %d values was not recognised as a linear form" % n, short(fn), [show(r)[:200] for g, r in got])
        else:
            ok = all(g == want for g, r in got)
            yield Ob("mean/%d" % n, GOOD if ok else BAD, "the summary of %d values is their arithmetic mean" % n, short(fn), [] if ok else [str(g) for g, r in got])


# ---- the ranking ------------------------------------------------------------------------------------
LT, EQ, GT = "Less", "Equal", "Greater"


@rule("ranking", "C02 C12 C17", "the population's ordering, over every relation between two keys: objective value first, ascending; distinct ids never compare equal")
def _(ctx, prop):
    p = ctx.p
    try:
        sh = pop.Shape(p)
    except pop.Missing as x:
        yield Ob("ranking/shape", UNDECIDED, str(x))
        return
    key = sh.key.a[0]
    cm = [(im["items"].get("cmp"), im) for im in p.impls if (im.get("trait") or "").split("::")[-1] == "Ord" and im["self"].tag == "adt" and im["self"].a[0] == key]
    if len(cm) != 1 or cm[0][0] not in p.bodies:
        yield Ob("ranking/cmp", UNDECIDED, "the ordering of the population's keys was not found")
        return
    fn = cm[0][0]
    bad, und = [], []
    for ro in (LT, EQ, GT):
        for ri in (LT, EQ, GT):
            r = compare(p, sh, fn, ro, ri)
            want = ro if ro != EQ else None
            if r is None:
                und.append((ro, ri))
            elif want is not None and r != want:
                bad.append(("objective %s, id %s" % (ro, ri), r))
            elif want is None and (r == EQ) != (ri == EQ):
                bad.append(("objective %s, id %s" % (ro, ri), r))
    if not und and not bad:
        a, b = compare(p, sh, fn, EQ, LT), compare(p, sh, fn, EQ, GT)
        if a == b:
            bad.append(("ties", a))
    yield Ob("ranking/order", BAD if bad else UNDECIDED if und else GOOD, "individuals are ranked by ascending objective value, ties apart by id", short(fn), bad or und)


def compare(p, sh, fn, ro, ri):
    """the Ordering `fn` returns when the objective values / ids of its arguments compare as given"""
    c = pop.Core(p, sh, False)
    c.log, c.cell, c.onremove = [], T_("g", "self"), None
    e = c.engine()
    st = E.State()
    rel = {}
    cells = []
    for w in (0, 1):
        fs = [None, None]
        for j, r in ((sh.kobj, ro), (sh.kid, ri)):
            y = T_("y", ("k", w, j), (), ())
            fs[j] = lin_of(y) if j == sh.kid else y
        cell = T_("g", "key", w)
        st.cells[cell] = E.V(sh.key.a[0], 0, *fs)
        cells.append(T_("ref", cell, ()))
    o = [T_("y", ("k", w, sh.kobj), (), ()) for w in (0, 1)]
    i = [lin_of(T_("y", ("k", w, sh.kid), (), ())) for w in (0, 1)]
    s = {LT: -1, EQ: 0, GT: 1}
    ok = True
    if ri == EQ:
        ok = e.add_ge(st, lsub(i[0], i[1])) and e.add_ge(st, lsub(i[1], i[0]))
    else:
        ok = e.add_ge(st, ladd(lmul(lsub(i[0], i[1]), s[ri]), I(-1)))

    def relation(e, st, x, y):
        x, y = e.deref_all(st, x), e.deref_all(st, y)
        for a, b, k in ((0, 1, 1), (1, 0, -1)):
            if x is o[a] and y is o[b]:
                return k * s[ro]
            if x is i[a] and y is i[b] or x.tag != "i" and lin_of(x) is i[a] and y.tag != "i" and lin_of(y) is i[b]:
                return k * s[ri]
        return 0 if x is y else None

    def val(k):
        return E.V("core::cmp::Ordering", k + 1)

    def cmp(e, st, a, info):
        k = relation(e, st, a[0], a[1])
        return None if k is None else [(st, val(k))]

    def pcmp(e, st, a, info):
        k = relation(e, st, a[0], a[1])
        return None if k is None else [(st, E.SOME(val(k)))]

    def test(f):
        def h(e, st, a, info):
            k = relation(e, st, a[0], a[1])
            return None if k is None else [(st, TRUE if f(k) else FALSE)]
        return h
    O = e.overrides
    O["Ord::cmp"] = cmp
    O["f64::total_cmp"] = cmp
    O["PartialOrd::partial_cmp"] = pcmp
    for n, f in (("lt", lambda k: k < 0), ("le", lambda k: k <= 0), ("gt", lambda k: k > 0), ("ge", lambda k: k >= 0)):
        O["PartialOrd::" + n] = test(f)
    O["PartialEq::eq"] = test(lambda k: k == 0)
    O["PartialEq::ne"] = test(lambda k: k != 0)
    if not ok:
        return None
    try:
        rs = e.run_fn(st, fn, (), tuple(cells), T_("fr", "root", "cmp"))
    except E.EngineLimit:
        return None
    out = set()
    for s2, r in rs:
        r = e.deref_all(s2, r)
        if r.tag != "V" or e.unknown:
            return None
        n = p.adts.get(r.a[0], {}).get("variants")
        out.add(n[r.a[1]]["name"] if n and len(n) == 3 else (LT, EQ, GT)[r.a[1]])
    return out.pop() if len(out) == 1 else None
