"""Rules over the search operators on nodes of known shape: which outcomes are possible, and with what weight."""
from fractions import Fraction
from terms import *
from terms import T_, T
import engine as E
from engine import *
import small, draws, models
from small import Small, Missing, band, interval
from nodes import VN, VAL, SPEC, NAMES, tainted
from roots import CP, MP, STDRNG
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_cross import unit_of, SELI, CR

MUT = "mutation::mutate"


def leafs(e, s, r, path=()):
    """[(path, leaf payload or None)] of a value of known shape; None when the shape is not known"""
    r = e.deref_all(s, r)
    if r.tag != "V" or r.a[0] != VN:
        return None
    k = NAMES[r.a[1]]
    if k in ("Real", "Int", "Bool", "Enum"):
        return [(path, e.deref_all(s, r.a[2][0]))]
    if k == "Const":
        return [(path, UNIT)]
    if k in ("Sub", "AnonMap", "Array"):
        c = e.deref_all(s, r.a[2][0])
        if c.tag != "coll" or any(x.tag != "one" for x in c.a[1]):
            return None
        out = []
        for i, x in enumerate(c.a[1]):
            key = keyof(e.deref_all(s, x.a[0])) if k != "Array" else i
            l = leafs(e, s, x.a[1], path + (key,))
            if l is None:
                return None
            out += l
        return out
    if k == "Variant":
        nm = keyof(e.deref_all(s, r.a[2][0]))
        l = leafs(e, s, r.a[2][1], path + ("variant", nm))
        return l
    if k == "Optional":
        o = e.deref_all(s, r.a[2][0])
        if o.tag != "V":
            return None
        return [(path + ("none",), UNIT)] if o.a[1] == 0 else leafs(e, s, o.a[2][0], path + ("some",))
    return None


def keyof(t):
    if t.tag == "s":
        return t.a[0]
    if t.tag == "i" and isconst(t):
        return cval(t)
    return t


def key_of_map(e, s, r):
    """the set of keys of a map or structure result, unknown keys as terms; None when not known"""
    c = e.deref_all(s, r.a[2][0])
    if c.tag != "coll" or any(x.tag != "one" for x in c.a[1]):
        return None
    return [keyof(e.deref_all(s, x.a[0])) for x in c.a[1]]


# ---- mutation with probability one ------------------------------------------------------------------
def numbers(k):
    """scenarios (kind, scale, value, min, max)"""
    for kind, vs in (("Real", (0.0, -7.5, 1e6)), ("Int", (0, -7, 1000000))):
        for sc in (1.0, 50.0):
            for v in vs:
                far = 10 * sc if kind == "Real" else int(10 * sc)
                for lo, hi in ((None, None), (v - far, v + far), (v, v + far), (v - far, v), (v - far, None), (None, v + far)):
                    yield kind, sc, v, lo, hi


def number_obs(k):
    """a number that is mutated moves both ways by a fraction of its scale, bounds permitting"""
    bad, und = {}, {}
    n = {"Real": 0, "Int": 0}
    for kind, sc, v, lo, hi in numbers(k):
        for d in (1, -1):
            if d > 0 and hi is not None and hi <= v or d < 0 and lo is not None and lo >= v:
                continue
            kw = dict(init=v, scale=sc, min=lo, max=hi)
            what = "%s %s, scale %s, bounds [%s, %s]" % (kind, v, sc, lo, hi)
            try:
                e, rs = k.mutate(k.spec(kind, **kw), k.val(kind, v), setup=band(*((0.5, 2.0) if d > 0 else (-2.0, -0.5))))
            except E.EngineLimit as x:
                und[kind] = "%s: %s" % (what, x)
                continue
            if not e.bands and e.opaque:
                und[kind] = "%s: %s" % (what, sorted(e.opaque)[0])
                continue
            n[kind] += 1
            moves = False
            for s, r in rs:
                if r.tag != "V" or r.a[0] != VN:
                    moves = True
                    continue
                a, b = interval(e, s, r.a[2][0])
                if (b >= v + 0.25 * sc if d > 0 else a <= v - 0.25 * sc):
                    moves = True
            if not moves:
                bad.setdefault((kind, d), what)
    for kind in ("Real", "Int"):
        for d, w in ((1, "upwards"), (-1, "downwards")):
            if (kind, d) in bad:
                yield Ob("variation/%s/%s" % (kind, w), BAD, "mutation with probability 1 does not move a %s %s by a quarter of its scale or more, although the draw deviates by half a scale to two scales: %s" % (kind, w, bad[(kind, d)]), MUT)
            elif kind in und:
                yield Ob("variation/%s/%s" % (kind, w), UNDECIDED, und[kind], MUT)
            else:
                yield Ob("variation/%s/%s" % (kind, w), GOOD, "mutation with probability 1 moves a %s %s by a comparable part of its scale whenever the draw does and the bounds leave room (%d cases)" % (kind, w, n[kind]), MUT)


def option_obs(k):
    """every other option of an enum or variant can be reached"""
    names = ["o%02d" % i for i in range(40)]
    for kind in ("Enum", "Variant"):
        bad = und = None
        cases = 0
        for n in (2, 3, 5, 12, 40):
            for cur in range(n) if n <= 5 else (0, n // 2, n - 1):
                opts = names[:n]
                try:
                    if kind == "Enum":
                        e, rs = k.mutate(k.spec("Enum", values=opts, init=names[0]), k.val("Enum", opts[cur]))
                    else:
                        e, rs = k.mutate(k.spec("Variant", map={o: k.spec("Const") for o in opts}, init=names[0]), k.val("Variant", opts[cur], k.val("Const")))
                except E.EngineLimit as x:
                    und = und or str(x)
                    continue
                got = [keyof(e.deref_all(s, r.a[2][0])) if r.tag == "V" else r for s, r in rs]
                cases += 1
                if any(not isinstance(g, str) for g in got):
                    if set(opts) - {opts[cur]} - set(got):
                        und = und or "an option that was not identified: %s" % [show(g) for g in got if isinstance(g, T)][:1]
                    continue
                miss = set(opts) - {opts[cur]} - set(got)
                if miss:
                    bad = bad or "of the options %s, %s is never reached from %s" % (opts, sorted(miss)[0], opts[cur])
        key = "variation/%s/options" % kind
        if bad:
            yield Ob(key, BAD, "mutation with probability 1: " + bad, MUT)
        elif und:
            yield Ob(key, UNDECIDED, und, MUT)
        else:
            yield Ob(key, GOOD, "every other option can result from mutation with probability 1 (%d cases)" % cases, MUT)


def size_obs(k):
    """a map between its bounds can grow and shrink"""
    bad, und = {}, None
    cases = 0
    for n in (0, 1, 2, 3, 5, 9, 20):
        for lo, hi in {(None, None), (0, None), (None, n + 1), (max(n - 1, 0), n + 2), (n, None), (None, n), (n, n + 3), (0, n), (n // 2, 2 * n + 2)}:
            if hi is not None and hi < 1 or lo is not None and lo == hi:
                continue
            sp = k.spec("AnonMap", value_type=k.spec("Const"), init_size=n, min_size=lo, max_size=hi)
            try:
                e, rs = k.mutate(sp, k.val("AnonMap", {3 * i + 1: k.val("Const") for i in range(n)}))
            except E.EngineLimit as x:
                und = und or "size %d: %s" % (n, x)
                continue
            cases += 1
            szs = set()
            for s, r in rs:
                c = e.deref_all(s, r.a[2][0]) if r.tag == "V" else r
                l = LEN(c) if c.tag == "coll" else None
                szs.add(cval(l) if l is not None and isconst(l) else None)
            if None in szs:
                und = und or "size %d: a result of unknown size" % n
                continue
            if (hi is None or n < hi) and n + 1 not in szs:
                bad.setdefault("grows", (n, lo, hi))
            if n > (lo or 0) and n > 1 and n - 1 not in szs:
                bad.setdefault("shrinks", (n, lo, hi))
    for d in ("grows", "shrinks"):
        key = "variation/AnonMap/%s" % d
        if d in bad:
            yield Ob(key, BAD, "mutation with probability 1: a map of size %s with bounds [%s, %s] never %s" % (bad[d] + (d,)), MUT)
        elif und:
            yield Ob(key, UNDECIDED, und, MUT)
        else:
            yield Ob(key, GOOD, "mutation with probability 1: a map strictly between its bounds %s on some draw (%d cases)" % (d, cases), MUT)


def depth_obs(k):
    """the parts of a structure are mutated, at any depth"""
    Bs, Rs = k.spec("Bool", init=False), k.spec("Real", init=0.0, scale=1.0)

    def shapes(sp, v):
        """(name, spec, value) around a leaf; v(i): the i-th leaf"""
        sub = lambda m: k.spec("Sub", map=m)
        yield "Sub", sub({"a": sp, "b": sp, "c": sp}), k.val("Sub", {"a": v(0), "b": v(1), "c": v(2)})
        yield "Array", k.spec("Array", value_type=sp, size=3), k.val("Array", [v(0), v(1), v(2)])
        yield "AnonMap", k.spec("AnonMap", value_type=sp, init_size=2), k.val("AnonMap", {2: v(0), 4: v(1), 9: v(2)})
        yield "Sub/Array/Sub", sub({"p": k.spec("Array", value_type=sub({"x": sp, "y": sp}), size=2), "q": sp}), k.val("Sub", {"p": k.val("Array", [k.val("Sub", {"x": v(0), "y": v(1)}), k.val("Sub", {"x": v(2), "y": v(3)})]), "q": v(4)})
        yield "Array/AnonMap", k.spec("Array", value_type=k.spec("AnonMap", value_type=sp, init_size=1, min_size=1, max_size=2), size=2), k.val("Array", [k.val("AnonMap", {0: v(0), 5: v(1)}), k.val("AnonMap", {7: v(2)})])
    for leaf, sp in (("Bool", Bs), ("Real", Rs)):
        v = (lambda i: k.val("Bool", i % 2 == 0)) if leaf == "Bool" else (lambda i: k.val("Real", 10.0 * (i + 1)))
        for name, s0, v0 in shapes(sp, v):
            key = "variation/parts/%s/%s" % (name, leaf)
            try:
                e, rs = k.mutate(s0, v0, setup=band(0.5, 2.0))
            except E.EngineLimit as x:
                yield Ob(key, UNDECIDED, str(x), MUT)
                continue
            old = dict(leafs(e, State(), v0))
            st = GOOD
            why = ""
            for s, r in rs:
                l = leafs(e, s, r)
                if l is None:
                    st = UNDECIDED if st == GOOD else st
                    why = why or show(r)[:200]
                    continue
                for p, x in l:
                    if p not in old:
                        continue
                    o = old[p]
                    if leaf == "Bool":
                        if x.tag in ("T", "F"):
                            if x is o:
                                st, why = BAD, "the part at %s keeps its value" % (p,)
                        elif st == GOOD:
                            st, why = UNDECIDED, show(x)[:100]
                    else:
                        a, b = interval(e, s, x)
                        if b < E.fcv(o) + 0.25:
                            st, why = BAD, "the part at %s does not follow its draw" % (p,)
            yield Ob(key, st, "mutation with probability 1 changes every %s inside %s%s" % (leaf, name, ": " + why if why else ""), MUT)


# ---- recombination with probability one -------------------------------------------------------------
def crossing(k, spec, parents):
    """[(weights, {path: leaf})] of the offspring, in the selection pressure q"""
    fn = [b for b in k.p.bodies if b.startswith("cambrian::crossover::") and b.endswith("::crossover") and k.p.bodies[b].argc == 6]
    if len(fn) != 1:
        raise Missing("the entry point of recombination was not found")
    q = T_("y", "q", (), ())

    def mk(e):
        e.dom.fintab[q] = (0.0, 1.0, False)
        me = unit_of(k.p, T_("adt", CR, (T_("adt", SELI, ()),)))
        ps = E.COLL("vec", tuple(E.ONE(E.NOKEY, V(VAL, 0, x)) for x in parents), I(len(parents)))
        return [me, V(SPEC, 0, spec), ps, k.params(CP, crossover_prob=1.0, selection_pressure=q), T_("vol", small.PC), T_("vol", STDRNG)]
    e, rs = k.run(fn[0], mk, q=q)
    out = []
    for s, r in rs:
        l = leafs(e, s, r)
        if l is None:
            raise E.EngineLimit("an offspring of unknown shape: %s" % show(r)[:100])
        out.append((draws.weight(s), dict(l)))
    return e, out


def mixing_obs(k):
    R = k.spec("Real", init=0.0, scale=1.0)
    N = k.spec("Int", init=0, scale=1.0)
    En = k.spec("Enum", values=["a", "b", "c"], init="a")
    sub = lambda m: k.spec("Sub", map=m)
    rv = lambda *x: [k.val("Real", float(y)) for y in x]

    def ab(i, kind="Real"):
        return k.val("Sub", {"a": k.val(kind, (10.0 if kind == "Real" else 10) + i), "b": k.val(kind, (20.0 if kind == "Real" else 20) + i)})
    AB = sub({"a": R, "b": R})
    cases = [
        ("Sub", AB, [ab(0), ab(1)]),
        ("Sub of integers and enums", sub({"a": N, "b": En, "c": k.spec("Bool", init=False)}), [k.val("Sub", {"a": k.val("Int", 1), "b": k.val("Enum", "a"), "c": k.val("Bool", True)}), k.val("Sub", {"a": k.val("Int", 2), "b": k.val("Enum", "c"), "c": k.val("Bool", False)})]),
        ("Array", k.spec("Array", value_type=R, size=3), [k.val("Array", rv(1, 2, 3)), k.val("Array", rv(4, 5, 6))]),
        ("Array, three parents", k.spec("Array", value_type=R, size=2), [k.val("Array", rv(1, 2)), k.val("Array", rv(3, 4)), k.val("Array", rv(5, 6))]),
        ("AnonMap with shared keys", k.spec("AnonMap", value_type=R, init_size=2), [k.val("AnonMap", dict(zip((3, 8), rv(1, 2)))), k.val("AnonMap", dict(zip((3, 8), rv(3, 4))))]),
        ("Variant", k.spec("Variant", map={"x": AB, "y": k.spec("Const")}, init="x"), [k.val("Variant", "x", ab(0)), k.val("Variant", "x", ab(1))]),
        ("Variant among others", k.spec("Variant", map={"x": AB, "y": k.spec("Const")}, init="x"), [k.val("Variant", "x", ab(0)), k.val("Variant", "y", k.val("Const")), k.val("Variant", "x", ab(1))]),
        ("Optional", k.spec("Optional", value_type=AB, init_present=True), [k.val("Optional", models.SOME(ab(0))), k.val("Optional", models.SOME(ab(1)))]),
        ("Sub in Array", k.spec("Array", value_type=AB, size=2), [k.val("Array", [ab(0), ab(2)]), k.val("Array", [ab(1), ab(3)])]),
        ("Sub in Sub", sub({"p": AB, "q": k.spec("Optional", value_type=R, init_present=True)}), [k.val("Sub", {"p": ab(0), "q": k.val("Optional", models.SOME(rv(1)[0]))}), k.val("Sub", {"p": ab(1), "q": k.val("Optional", models.NONE)})]),
    ]
    W = "crossover::crossover"
    for name, sp, ps in cases:
        key = "mixing/" + name
        try:
            e, out = crossing(k, sp, ps)
        except (E.EngineLimit, draws.Unmodelled) as x:
            yield Ob(key, UNDECIDED, "recombining %s: %s" % (name, x), W)
            continue
        if e.opaque or e.unknown:
            yield Ob(key, UNDECIDED, "recombining %s: %s" % (name, sorted(map(str, e.opaque or e.unknown))[0]), W)
            continue
        tot = draws.bernstein([w for w, l in out])
        if tot != draws.bernstein([(0, 0, Fraction(1))], len(tot) - 1):
            yield Ob(key, UNDECIDED, "recombining %s: the cases depend on the pressure otherwise than by draws" % name, W)
            continue
        src = [dict(leafs(e, State(), x)) for x in ps]
        # positions shared by at least two parents that differ there
        pos = sorted({p for d in src for p in d if len({x[p] for x in src if p in x}) > 1}, key=str)
        bad = None
        for p in pos:
            vals = []
            for x in src:
                if p in x and x[p] not in vals:
                    vals.append(x[p])
            for y in vals:
                if not any(l.get(p) is y for w, l in out):
                    bad = bad or "the part at %s is never taken from one of the parents (%s)" % (p, show(y))
            # better parents are preferred
            ws = [[w for w, l in out if l.get(p) is y] for y in vals]
            for a, b in zip(ws, ws[1:]):
                x = draws.nonneg(a + [(i, j, -f) for i, j, f in b])
                if x is not None and x is not True:
                    bad = bad or "the part at %s is taken more often from a worse parent (selection pressure %s: probability %.4g against %.4g)" % (p, x, float(draws.value(b, x)), float(draws.value(a, x)))
        for i, p in enumerate(pos):
            for r in pos[i + 1:]:
                if not any(p in l and r in l and not any(x.get(p) is l[p] and x.get(r) is l[r] for x in src) for w, l in out) and any(p in x and r in x for x in src):
                    bad = bad or "the parts at %s and %s always come from the same parent" % (p, r)
        yield Ob(key, BAD if bad else GOOD, "recombining %s with probability 1%s" % (name, ": " + bad if bad else " mixes every pair of parts and prefers the better parent (%d weighted cases)" % len(out)), W)
    # keys of both parents can meet
    for name, lo, hi, ka, kb in (("separate keys", None, None, (1, 2), (5,)), ("separate keys, at most 2", None, 2, (1, 2), (5,)), ("separate keys, at least 2", 2, None, (1,), (5, 6)), ("one key each", None, None, (4,), (7,))):
        key = "mixing/AnonMap with " + name
        ps = [k.val("AnonMap", {i: k.val("Const") for i in x}) for x in (ka, kb)]
        try:
            e, out = crossing(k, k.spec("AnonMap", value_type=k.spec("Const"), init_size=2, min_size=lo, max_size=hi), ps)
        except (E.EngineLimit, draws.Unmodelled) as x:
            yield Ob(key, UNDECIDED, str(x), W)
            continue
        if e.opaque or e.unknown:
            yield Ob(key, UNDECIDED, sorted(map(str, e.opaque or e.unknown))[0], W)
            continue
        bad = None
        for i in ka + kb:
            if not any((i,) in l for w, l in out):
                bad = "key %d is never inherited" % i
        if not any(any((i,) in l for i in ka) and any((i,) in l for i in kb) for w, l in out):
            bad = "keys of the two parents never occur together"
        yield Ob(key, BAD if bad else GOOD, "recombining maps with %s%s" % (name, ": " + bad if bad else ": every key can be inherited, from both parents at once"), W)


# ---- adaptation of the search parameters ----------------------------------------------------------------
def adapt_obs(k):
    """every search parameter is scaled up by some draws and down by others, by a percent at least"""
    W = "meta_adapt"
    cases = [dict(crossover_prob=a, selection_pressure=b, mutation_prob=c, mutation_scale=d) for a, b, c, d in ((0.5, 0.25, 0.125, 1.0), (1e-3, 0.9, 1e-6, 1e4), (1e-9, 1e-4, 0.03, 1e-7), (0.9, 1e-5, 0.95, 0.01), (1.0, 1.0, 1.0, 1e9))]
    names = {}
    for adt in (CP, MP):
        names[adt] = [n for n, t in k.p.adts[adt]["variants"][0]["fields"]]
    if sorted(names[CP] + names[MP]) != sorted(cases[0]):
        raise Missing("the search parameters are other ones")

    def outs(fn, mk, lo, hi):
        """{parameter: (least, greatest)} over the results, {} when nothing was recognised"""
        e, rs = k.run(fn, mk, band(lo, hi))
        if not e.bands or e.unknown:
            raise E.EngineLimit("no draw of a known distribution" if not e.bands else "unmodelled: %s" % sorted(map(str, e.unknown))[0])
        out = {}
        for st, r in rs:
            if r.tag != "tup":
                raise E.EngineLimit("a result of unknown shape: %s" % show(r)[:100])
            for x in r.a[0]:
                x = e.deref_all(st, x)
                if x.tag != "V" or x.a[0] not in names:
                    raise E.EngineLimit("a result of unknown shape: %s" % show(x)[:100])
                for n, y in zip(names[x.a[0]], x.a[2]):
                    a, b = interval(e, st, y)
                    o = out.get(n)
                    out[n] = (a, b) if o is None else (min(a, o[0]), max(b, o[1]))
        return out
    bad = {}
    und = None
    n = 0
    fn = "cambrian::meta_adapt::mutate"
    for v in cases:
        mk = lambda e: [k.params(CP, **{x: v[x] for x in names[CP]}), k.params(MP, **{x: v[x] for x in names[MP]}), T_("vol", STDRNG)]
        try:
            hi, lo = outs(fn, mk, 0.5, 2.0), outs(fn, mk, -2.0, -0.5)
        except E.EngineLimit as x:
            und = und or str(x)
            continue
        n += 1
        for x, o in v.items():
            top = o == 1.0 and x != "mutation_scale"
            rng = [z[x] for z in (hi, lo)]
            if not top and not any(b >= o * 1.01 for a, b in rng):
                bad.setdefault(x, "%s is never raised from %g" % (x, o))
            if not any(a <= o * 0.99 for a, b in rng):
                bad.setdefault(x, "%s is never lowered from %g" % (x, o))
            if any(a > 100 * o or b < o / 100 for a, b in rng):
                bad.setdefault(x, "%s is not scaled from %g by a draw within two scales, but set to something in [%g, %g]" % (x, o, min(a for a, b in rng), max(b for a, b in rng)))
    for x in sorted(cases[0]):
        key = "variation/adapt/%s" % x
        if x in bad:
            yield Ob(key, BAD, "adapting the search parameters: " + bad[x], W)
        elif und:
            yield Ob(key, UNDECIDED, und, W)
        else:
            yield Ob(key, GOOD, "adapting the search parameters raises and lowers %s, depending on the draw (%d cases)" % (x, n), W)
    fn = "cambrian::meta_adapt::create_exploratory"
    try:
        hi, lo = (outs(fn, lambda e: [T_("vol", STDRNG)], *z) for z in ((0.5, 2.0), (-2.0, -0.5)))
    except E.EngineLimit as x:
        yield Ob("variation/explore", UNDECIDED, str(x), W)
        return
    why = None
    for x in sorted(cases[0]):
        (a, b), (c, d) = hi[x], lo[x]
        if min(b, d) <= 0:
            why = why or "%s is explored at 0 only" % x
        elif max(b, d) <= min(a, c) * 1.01:
            why = why or "%s is the same whatever is drawn" % x
    yield Ob("variation/explore", BAD if why else GOOD, "exploring the search parameters afresh: " + (why or "all of them vary with the draw and are positive"), W)


def run_obs(ctx):
    def go():
        try:
            k = Small(ctx.p)
            k.spec("Real", init=0.0, scale=1.0)
        except Missing as x:
            return [Ob("variation/shape", UNDECIDED, str(x))]
        gs = [number_obs, option_obs, size_obs, depth_obs, mixing_obs, adapt_obs]

        def one(g):
            try:
                return list(g(k))
            except Missing as x:
                return [Ob("variation/shape", UNDECIDED, str(x))]
        out = []
        for g, (st, r) in zip(gs, parallel([lambda g=g: one(g) for g in gs])):
            if st == "ok":
                out += r
            else:
                out.append(Ob("variation/%s" % g.__name__, UNDECIDED, "analysis failed: " + str(r).strip().splitlines()[-1][:200]))
        return out
    return ctx.once("small", go)


@rule("variation", "C17", "abstract interpretation of mutation (probability 1) and recombination (probability 1) on nodes of known shape, draws as weighted branches: which outcomes are possible, in which directions, how often")
def _(ctx, prop):
    yield from run_obs(ctx)
