"""Rules over the genetic operators: mutation, crossover, initial values."""
import re
from terms import *
from terms import T_, T
import engine as E
from engine import *
import nodes, roots, loops
import prog as P
from nodes import VN, VAL, SN, SPEC, NAMES, same_term, check_conf, tainted, elements
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED


def loc(sp):
    return re.sub(r":\d+:\d+.*$", "", str(sp))


def short(s):
    return re.sub(r"\{impl#\d+\}::", "", s.replace("cambrian::", ""))


def verdict(prob):
    return UNDECIDED if prob.taint else BAD


# ---- equality of values ---------------------------------------------------------------------------
def same_value(e, st, r, v, depth=0):
    """list of reasons why the result term r is not known to equal the value term v"""
    r = e.deref_all(st, r)
    v = e.deref_all(st, v)
    if same_term(e, st, r, v):
        return []
    if r.tag == "V" and r.a[0] == VN:
        dv = e.disc_of(st, v)
        if dv is not None and dv != r.a[1]:
            return ["kind changes from %s to %s" % (NAMES[dv], NAMES[r.a[1]])]
        out = []
        for i, x in enumerate(r.a[2]):
            out += same_value(e, st, x, fld(v, r.a[1], i), depth + 1)
        return out
    if r.tag == "V" and r.a[0] == OPT:
        dv = e.disc_of(st, v)
        if dv != r.a[1]:
            return ["presence may change"]
        return same_value(e, st, r.a[2][0], fld(v, 1, 0), depth + 1) if r.a[1] == 1 else []
    if r.tag == "coll":
        if e.ev(st, EQ0(lsub(LEN(r), LEN(v)))) is not True:
            return ["length may change"]
        out = []
        if r.a[0] == "vec":
            ok = len(r.a[1]) == 1 and r.a[1][0].tag == "all" and r.a[1][0].a[1] is I(0)
            if ok:
                Pv, lo, hi, alts = r.a[1][0].a
                for al in alts:
                    if len(al.a[1]) != 1 or al.a[1][0].tag != "one":
                        ok = False
                        continue
                    j = T_("y", ("same", depth), e.idx, ("u",))
                    s = st.copy()
                    if not (e.add_ge(s, lin_of(j)) and e.add_ge(s, ladd(lsub(hi, j), I(-1)))):
                        continue
                    s = e.mod.apply_facts(e, s, al.a[0], {Pv: lin_of(j)})
                    if s is None:
                        continue
                    x = tsub(al.a[1][0].a[1], {Pv: lin_of(j)}, {})
                    out += same_value(e, s, x, T_("at", v, lin_of(j)), depth + 1)
            if not ok:
                out.append("array is rebuilt in an unknown order")
            return out
        for s, k, x in elements(e, st, r):
            if e.ev(s, T_("has", v, k)) is not True:
                out.append("key %s not known to be present before" % show(k)[:60])
            else:
                out += same_value(e, s, x, T_("at", v, k), depth + 1)
        return out
    return ["%s is not known to equal %s" % (show(r)[:80], show(v)[:60])]


# ---- the mutation analysis ------------------------------------------------------------------------
def mutation(ctx, mode):
    def attempt(skip):
        an = roots.Analysis(ctx.p, mode)
        an.noearly = skip
        an.results = []

        def mk(e):
            spec = T_("y", "spec", (), ("spec",))
            val = T_("y", "val", (), (("confv", spec),))
            e.specs = [fld(spec, 0, 0)]
            return State(), [spec, val, an.param_sym(e, roots.MP, "mp"), T_("vol", "cambrian::path::PathContext"), T_("vol", roots.STDRNG)]

        def post(e, s, r, args):
            r = e.deref_all(s, r)
            if r.tag == "V" and r.a[0] == nodes.VAL:
                r = r.a[2][0]
            an.results.append((e.rootname, e, s, r, args))
            for pr in check_conf(e, s, r, e.specs[0]):
                an.problem(e, "result", pr)
        fn = "cambrian::mutation::mutate"
        if fn not in ctx.p.bodies:
            an.limits.append(("mutate", "entry point %s not found" % fn, ()))
            return an
        an.run_entry("mutate", fn, mk, post)
        an.run_todo(post)
        return an

    def go():
        skip = set()
        for _ in range(4):
            an = attempt(skip)
            more = an.misfits() - skip
            if not more:
                break
            skip = skip | more
        ctx.count("engine_steps", sum(e.steps for _, e in an.engines))
        ctx.count("mutation_result_states", len(an.results))
        return an
    return ctx.once(("mutation", mode), go)


def conformance(an, what):
    """obligations 'result conforms' / 'recursive call preconditions' of an analysis"""
    for name, msg, stk in an.limits:
        yield Ob("%s/limit/%s" % (what, short(name)), UNDECIDED, "%s: analysis gave up: %s" % (short(name), msg[:200]), short(name))
    for name, e in an.engines:
        yield Ob("%s/%s" % (what, short(name)), GOOD, "every result of %s conforms to its specification node and every recursive call is made on conforming arguments" % short(name), short(name))
    for where, pr, stk, sp in an.problems:
        yield Ob("%s/%s/%s" % (what, short(where), pr.what), verdict(pr), "%s: %s" % (short(where), pr.what), "%s (%s)" % (short(stk[-1]) if stk else "", sp), show(pr.term)[:600])


def panics(an, what):
    for name, msg, stk in an.limits:
        yield Ob("%s/limit/%s" % (what, short(name)), UNDECIDED, "%s: analysis gave up: %s" % (short(name), msg[:200]), short(name))
    for name, e in an.engines:
        yield Ob("%s/%s" % (what, short(name)), GOOD, "no panic is reachable in %s (unwrap, expect, indexing, arithmetic overflow, unreachable!)" % short(name), short(name))
    for name, ev in an.panics:
        d = ev.data
        t = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
        bad = UNDECIDED if any(tainted(x) for x in t) else BAD
        yield Ob("%s/%s/%s" % (what, short(ev.fn), d[0] if isinstance(d, tuple) and d else d), bad, "panic reachable in %s: %s" % (short(ev.fn), d[0] if isinstance(d, tuple) and d else d), ev.sp, [show(x)[:300] if isinstance(x, T) else str(x) for x in (d if isinstance(d, tuple) else (d,))])


@rule("mutate-conforms", "C01", "abstract interpretation of mutation::mutate: whatever the draw, the mutated tree conforms to the specification node it was mutated under")
def _(ctx, prop):
    for m in ("gen", "prob0", "prob1"):
        yield from conformance(mutation(ctx, m), "mutate-" + m)


@rule("mutate-panics", "C15", "abstract interpretation of mutation::mutate: no reachable panic for parameters inside their documented ranges")
def _(ctx, prop):
    for m in ("gen", "prob0", "prob1"):
        yield from panics(mutation(ctx, m), "mutate-panic-" + m)


def node_results(an):
    """results of roots that map one value under one specification node"""
    for name, e, s, r, args in an.results:
        if name == "mutate":
            continue
        vs = [a for a in args if any(isinstance(x, tuple) and x[0] == "conf" for x in (a.a[2] if a.tag == "y" and len(a.a) > 2 else ()))]
        if len(vs) == 1:
            yield name, e, s, r, vs[0]


@rule("mutate-identity", "C13", "abstract interpretation with mutation probability 0: the result is structurally the input")
def _(ctx, prop):
    an = mutation(ctx, "prob0")
    for name, msg, stk in an.limits:
        yield Ob("identity/limit/%s" % short(name), UNDECIDED, msg[:200], short(name))
    n = 0
    for name, e, s, r, v in node_results(an):
        d = e.disc_of(s, v)
        k = NAMES[d] if d is not None else "?"
        n += 1
        why = same_value(e, s, r, v)
        bad = tainted(r)
        yield Ob("identity/%s" % k, GOOD if not why else UNDECIDED if bad else BAD, "mutation probability 0 leaves %s nodes unchanged%s" % (k, ": " + "; ".join(why[:3]) if why else ""), short(name))
    if n < 10 and not an.limits:
        yield Ob("identity/kinds", UNDECIDED, "fewer node kinds than expected were seen (%d)" % n)


def rec_of(t):
    for x in (t.a[2] if t.tag == "y" and len(t.a) > 2 else ()):
        if isinstance(x, tuple) and x[0] == "rec":
            return x
    return None


def from_initial(e, st, t, s):
    """is t the specification node's initial value, possibly mutated afterwards?"""
    for _ in range(6):
        t = e.deref_all(st, t)
        r = rec_of(t)
        if r is None:
            return False
        if not r[2]:
            return r[1] in init_fns(e.p) and e.dom.conf(t) is not None and same_term(e, st, e.dom.conf(t), s)
        t = r[2][0]
    return False


def init_fns(p):
    """the functions that compute the declared initial value (their own results are decided by initial-value)"""
    if not hasattr(p, "_initfns"):
        f = P.method(p, SPEC, "initial_value")
        p._initfns = p.reach([f]) if f else set()
        if f:
            p._initfns.add(f)
    return p._initfns


@rule("mutate-resize", "C13", "abstract interpretation: a mutated map differs from its input by at most one element, an added key is absent from the map, with probability 1 only a pinned map keeps its size")
def _(ctx, prop):
    for mode in ("gen", "prob1"):
        an = mutation(ctx, mode)
        for name, msg, stk in an.limits:
            yield Ob("resize/limit/%s" % short(name), UNDECIDED, msg[:200], short(name))
        seen = 0
        for name, e, s, r, v in node_results(an):
            if r.tag != "V" or r.a[0] != VN or NAMES[r.a[1]] != "AnonMap":
                continue
            seen += 1
            m0 = fld(v, r.a[1], 0)
            m = e.deref_all(s, r.a[2][0])
            dl = lsub(LEN(m), LEN(m0))
            t = tainted(m)
            st = UNDECIDED if t else BAD
            ok = e.ent_ge(s, ladd(dl, I(1))) and e.ent_ge(s, lsub(I(1), dl))
            yield Ob("resize/%s/by-one" % mode, GOOD if ok else st, "map size changes by at most one" + ("" if ok else ": change is " + show(dl)[:120]), short(name))
            # added keys
            if m.tag == "coll":
                new = []
                for s2, k, x in elements(e, s, m):
                    h = e.ev(s2, T_("has", m0, k))
                    if h is not True:
                        new.append(k)
                        yield Ob("resize/%s/fresh" % mode, GOOD if h is False else st, "an element whose key is not one of the map's keys has a key that is provably fresh", short(name), show(k)[:200])
                if new:
                    ok = e.ent_ge(s, ladd(dl, I(-1)))
                    yield Ob("resize/%s/add" % mode, GOOD if ok else st, "adding an element grows the map by one (it never replaces one)", short(name))
                if any(sg.tag == "del" for sg in m.a[1]) and any(sg.tag == "one" for sg in m.a[1]):
                    yield Ob("resize/%s/overwrite" % mode, st, "an element is removed and another added in the same mutation", short(name))
            else:
                yield Ob("resize/%s/shape" % mode, st, "resulting map cannot be related to the input map", short(name), show(m)[:200])
            if mode == "prob1":
                spec = e.dom.conf(v)
                lo = e.dom.optb(s, e.dom.sf(spec, "AnonMap", "min_size"))
                hi = e.dom.optb(s, e.dom.sf(spec, "AnonMap", "max_size"))
                changed = e.ent_ge(s, ladd(dl, I(-1))) or e.ent_ge(s, lsub(I(-1), dl))
                if not changed:
                    # the only excuse: the bounds pin the size
                    L = LEN(m0)
                    at_lo = lo is not None and e.ent_ge(s, lsub(lo, L)) or e.ent_ge(s, lmul(L, -1))
                    at_hi = hi is not None and e.ent_ge(s, lsub(L, hi))
                    changed = at_lo and at_hi
                yield Ob("resize/prob1/changes", GOOD if changed else st, "with probability 1 the map is resized unless its bounds pin its size", short(name))
        if not seen and not an.limits:
            yield Ob("resize/%s/none" % mode, UNDECIDED, "no map result was seen")


@rule("mutate-restart", "C13", "abstract interpretation: a switched variant and a materialised optional are built from the option's declared initial value")
def _(ctx, prop):
    for mode in ("gen", "prob1"):
        an = mutation(ctx, mode)
        for name, e, s, r, v in node_results(an):
            if r.tag != "V" or r.a[0] != VN:
                continue
            k = NAMES[r.a[1]]
            spec = e.dom.conf(v)
            if k == "Variant":
                nm, child = r.a[2]
                old = fld(v, r.a[1], 0)
                same = e.keq(s, e.deref_all(s, nm), old)
                if same is True:
                    continue
                ok = from_initial(e, s, child, T_("at", e.dom.sf(spec, "Variant", "map"), e.deref_all(s, nm)))
                yield Ob("restart/%s/variant" % mode, GOOD if ok else UNDECIDED if tainted(child) or same is None else BAD, "switching a variant starts from the chosen option's initial value", short(name), show(child)[:200])
            if k == "Optional":
                o = e.deref_all(s, r.a[2][0])
                if o.tag == "V" and o.a[1] == 1 and e.disc_of(s, fld(v, r.a[1], 0)) == 0:
                    ok = from_initial(e, s, o.a[2][0], e.dom.sf(spec, "Optional", "value_type"))
                    yield Ob("restart/%s/optional" % mode, GOOD if ok else UNDECIDED if tainted(o) else BAD, "materialising an optional starts from its initial value", short(name), show(o)[:200])


@rule("mutate-live", "C17", "abstract interpretation with mutation probability 1: booleans, enums, variants and optionals always change")
def _(ctx, prop):
    an = mutation(ctx, "prob1")
    for name, msg, stk in an.limits:
        yield Ob("live/limit/%s" % short(name), UNDECIDED, msg[:200], short(name))
    for name, e, s, r, v in node_results(an):
        if r.tag != "V" or r.a[0] != VN:
            continue
        k = NAMES[r.a[1]]
        bad = UNDECIDED if tainted(r) else BAD
        if k == "Bool":
            x, o = e.deref_all(s, r.a[2][0]), fld(v, r.a[1], 0)
            ok = x.tag == "not" and x.a[0] is o or e.is_pred(x) and (e.ev(s, x), e.ev(s, o)) in ((True, False), (False, True))
            yield Ob("live/Bool", GOOD if ok else bad, "a mutated boolean is the negation of its input", short(name), show(x)[:200])
        elif k in ("Enum", "Variant"):
            x, o = e.deref_all(s, r.a[2][0]), fld(v, r.a[1], 0)
            ok = e.keq(s, x, o) is False
            yield Ob("live/" + k, GOOD if ok else bad, "a mutated %s names another option" % k.lower(), short(name), show(x)[:200])
        elif k == "Optional":
            x = e.deref_all(s, r.a[2][0])
            a, b = e.disc_of(s, x), e.disc_of(s, fld(v, r.a[1], 0))
            ok = a is not None and b is not None and a != b
            yield Ob("live/Optional", GOOD if ok else bad, "a mutated optional flips its presence", short(name))


def size_conjuncts(e, s, m0, los, his):
    """a state's facts about (size, lower bound, upper bound) alone: a predicate on concrete triples.  Conjuncts that
    mention anything else are dropped, so the predicate holds at least wherever the state is possible."""
    (lo_t, lo), (hi_t, hi), n = los, his, LEN(m0)
    cs = []
    for t, which in ((lo_t, 1), (hi_t, 2)):
        d = e.disc_of(s, t)
        if d is not None:
            cs.append(lambda v, d=d, which=which: (v[which] is not None) == (d == 1))
    consts = set()

    def linear(t):
        ks = []
        for a, k in t.a[1]:
            a = lin_of(a)
            w = 0 if a is lin_of(n) else 1 if a is lin_of(lo) else 2 if a is lin_of(hi) else None
            if w is None:
                return None
            ks.append((w, k))
        consts.add(abs(t.a[0]))
        return t.a[0], ks

    def value(l, v):
        c, ks = l
        for w, k in ks:
            if v[w] is None:
                return None
            c += k * v[w]
        return c
    for f in s.facts():
        if f[0] == "ge":
            l = linear(lin_of(f[1]))
            if l is not None:
                def ge(v, l=l):
                    x = value(l, v)
                    return x is None or x >= 0
                cs.append(ge)
        elif f[0] == "nd" and f[1].tag in ("i", "len", "fld"):
            l = linear(lin_of(f[1]))
            if l is not None:
                consts.update(x for x in f[2] if isinstance(x, int))
                cs.append(lambda v, l=l, no=f[2]: value(l, v) not in no)
    return (lambda v: all(c(v) for c in cs)), consts


@rule("mutate-sizes", "C17", "abstract interpretation with mutation probability 1: the path conditions under which a map grows and shrinks, projected on size and bounds and evaluated at every size up to a few hundred")
def _(ctx, prop):
    an = mutation(ctx, "prob1")
    for name, msg, stk in an.limits:
        yield Ob("sizes/limit/%s" % short(name), UNDECIDED, msg[:200], short(name))
    ways = {1: [], -1: []}
    consts, where, states = set(), None, 0
    for name, e, s, r, v in node_results(an):
        if r.tag != "V" or r.a[0] != VN or NAMES[r.a[1]] != "AnonMap":
            continue
        m0 = fld(v, r.a[1], 0)
        m = e.deref_all(s, r.a[2][0])
        where = where or short(name)
        states += 1
        dl = lsub(LEN(m), LEN(m0))
        spec = e.dom.conf(v)
        bs = []
        for f in ("min_size", "max_size"):
            t = e.dom.sf(spec, "AnonMap", f)
            bs.append((t, fld(t, 1, 0)))
        holds, cs = size_conjuncts(e, s, m0, *bs)
        consts |= cs
        for d in (1, -1):
            if tainted(m) or not e.ent_ge(s, lsub(I(0), lmul(dl, d))):      # not provably "does not move that way"
                ways[d].append(holds)
    if not states:
        if not an.limits:
            yield Ob("sizes/none", UNDECIDED, "no map result was seen")
        return
    ns = set(range(0, 301))
    for c in consts:
        if c < 10 ** 9:
            ns |= {max(c + i, 0) for i in (-2, -1, 0, 1, 2, 3)}
    for d, w in ((1, "grows"), (-1, "shrinks")):
        bad, cases = None, 0
        for n in sorted(ns):
            for lo in sorted({x for x in (0, 1, n - 1, n, n // 2) if 0 <= x <= n}) + [None]:
                for hi in sorted({x for x in (n, n + 1, n + 2, 2 * n + 5, n + 100) if x >= max(n, 1)}) + [None]:
                    if lo is not None and lo == hi:
                        continue
                    if (d > 0 and hi is not None and n >= hi) or (d < 0 and (n <= (lo or 0) or n <= 1)):
                        continue
                    cases += 1
                    if bad is None and not any(h((n, lo, hi)) for h in ways[d]):
                        bad = (n, lo, hi)
        if bad and an.limits:
            yield Ob("sizes/%s" % w, UNDECIDED, "some paths were not explored", where)
        elif bad:
            yield Ob("sizes/%s" % w, BAD, "mutation with probability 1: no path on which a map of size %s with bounds [%s, %s] %s" % (bad + (w,)), where)
        else:
            yield Ob("sizes/%s" % w, GOOD, "mutation with probability 1: some path's condition on size and bounds admits that the map %s, for each of %d sizes and bounds that leave room" % (w, cases), where)
