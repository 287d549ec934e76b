"""Rules over recombination: what do_crossover returns is decided per node kind by abstract
interpretation; recursion is cut by a contract whose preconditions (parents conform, at least one
parent, parameters in range) are checked at every cut, and whose arguments are recorded so that the
provenance of every part of the offspring can be traced to the parents."""
import re
from fractions import Fraction
from terms import *
from terms import T_, T
import engine as E
from engine import *
import nodes, roots, models
import prog as P
from nodes import VN, VAL, SN, SPEC, NAMES, same_term, check_conf, tainted, elements
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_ops import short, verdict, same_value, rec_of

CR = "cambrian::crossover::Crossover"
SELI = "cambrian::selection::SelectionImpl"


def selectors(p):
    return [b for b, d in p.bodies.items() if b.endswith("::select_ref") and p.defs.get(b, {}).get("kind") in ("AssocFn", "Fn")]


class CrossAnalysis(roots.Analysis):
    """mode 'gen': parents are any conforming values; 'ident': all parents are one value;
    'one': a single parent; 'cross': crossover probability 1 and at least two parents"""

    EARLY = roots.Analysis.EARLY + ("L",)

    def __init__(self, prog, mode, skip=frozenset()):
        super().__init__(prog, "gen")
        self.noearly = set(skip)
        self.cmode = mode
        self.sel = {}
        for b in selectors(prog):
            self.sel[b] = self.select
        self.setup = self.install

    def install(self, e):
        e.contracts.update(self.sel)

    def param_sym(self, e, adt, tag):
        t = super().param_sym(e, adt, tag)
        if self.cmode == "cross" and adt == roots.CP:
            fs = list(t.a[2])
            for j, n in roots.float_fields(self.p, adt):
                if n.endswith("prob"):
                    fs[j] = FC(1.0)
            return V(adt, 0, *fs)
        return t

    def select(self, e, st, a, info):
        """select_ref: some element of a non-empty list, for a selection pressure in [0, 1]"""
        l = e.deref_all(st, a[1])
        if not (e.ent_ge(st, ladd(LEN(l), I(-1))) or nodes.witness_nonempty(e, st, l)):
            self.problem(e, "precondition of selection", nodes.Problem("selection from a list not known to be non-empty", l, st), info)
        lo, hi, nan = e.fint(st, e.deref_all(st, a[2]))
        if lo < 0 or hi > 1 or nan:
            self.problem(e, "precondition of selection", nodes.Problem("selection pressure not known to lie in [0, 1]", e.deref_all(st, a[2]), st), info)
        j = T_("y", info.pp + ("sel",), e.idx, ("u",))
        s = st.copy()
        if not e.add_ge(s, ladd(lsub(LEN(l), j), I(-1))):
            return []
        return [(s2, v) for s2, k, v in e.mod.item(e, s, l, lin_of(j))]

    def pattern(self, e, st, fn, args):
        pat, probs, specs = super().pattern(e, st, fn, args)
        return pat, probs, specs

    def mk_result(self, e, st, fn, pat, args, specs, rty, pp):
        if self.cmode == "ident":
            ls = [e.deref_all(st, a) for a, p in zip(args, pat) if p and p[0] == "L"]
            if len(ls) == 1:
                vs = set()
                for s, k, v in elements(e, st, ls[0], "id"):
                    vs.add(e.deref_all(s, v))
                if len(vs) == 1:
                    v = vs.pop()
                    if not any(isinstance(y.a[0], tuple) and y.a[0] and y.a[0][0] == "el" for y in syms(v)):
                        return [(st, v)]
                self.problem(e, "recursion", nodes.Problem("identical parents are recombined from differing parts", ls[0], st))
        return super().mk_result(e, st, fn, pat, args, specs, rty, pp)

    def inputs(self, e, fn, pat):
        st, args, specs = super().inputs(e, fn, pat)
        out = []
        for i, (p, a) in enumerate(zip(pat, args)):
            if p[0] == "L":
                if self.cmode == "ident":
                    v = T_("y", ("val", i), (), (("conf", specs[p[1]]),))
                    n = T_("y", ("count", i), (), ("u",))
                    e.add_ge(st, ladd(lin_of(n), I(-1)))
                    a = COLL("vec", (ALL(BV(1), I(0), lin_of(n), (ALT((), (ONE(NOKEY, v),)),)),), lin_of(n))
                    self.ident = v
                elif self.cmode == "one":
                    e.add_ge(st, ladd(lmul(LEN(a), -1), I(1)))
                elif self.cmode == "cross":
                    e.add_ge(st, ladd(LEN(a), I(-2)))
                self.parents = a
            out.append(a)
        return st, out, specs


def entry(p):
    return P.method(p, CR, "crossover")


# ---- provenance -----------------------------------------------------------------------------------
def origin(e, st, v, L):
    """(position in L, path below it) of a term that is part of a parent"""
    path = []
    v = e.deref_all(st, v)
    for _ in range(12):
        if v.tag == "at" and v.a[0] is L:
            return v.a[1], tuple(reversed(path))
        if v.tag == "fld":
            path.append(("f", v.a[1], v.a[2]))
            v = v.a[0]
        elif v.tag == "at":
            path.append(("k", v.a[1]))
            v = v.a[0]
        else:
            return None
    return None


def peel_path(path):
    return tuple(x for x in path)


def matches(e, st, path, want):
    if len(path) != len(want):
        return False
    for a, b in zip(path, want):
        if a[0] != b[0]:
            return False
        if a[0] == "f":
            if a[1:] != b[1:]:
                return False
        elif e.keq(st, a[1], b[1]) is not True:
            return False
    return True


def child_list(e, st, x, L, want):
    """x is recombined from a list whose members all sit below the parents at path `want`: reasons why not"""
    r = rec_of(x)
    if r is None or len(r) < 4 or len(r[3]) != 1:
        return ["%s is not known to come from the parents" % show(x)[:100]]
    out = []
    for s, k, v in elements(e, st, r[3][0], "prov"):
        o = origin(e, s, v, L)
        if o is None or not matches(e, s, o[1], want):
            out.append("recombined with %s, which is not a parent's part at that position" % show(e.deref_all(s, v))[:100])
    return out


def ranked(e, st, l2, L):
    """does the list l2 keep the parents of L in their order, leaving out only those it filters by a condition?
    (True / False / None: cannot tell)"""
    l2 = e.deref_all(st, l2)
    if l2 is L:
        return True
    if l2.tag == "coll" and len(l2.a[1]) == 1 and l2.a[1][0].tag == "all":
        Pv, lo, hi, alts = l2.a[1][0].a
        if e.keq(st, lo, I(0)) is not True or e.ev(st, EQ0(lsub(hi, LEN(L)))) is not True:
            return None if nodes.tainted(l2) else False
        for al in alts:
            if len(al.a[1]) > 1 or any(x.tag != "one" for x in al.a[1]):
                return None
            for x in al.a[1]:
                j = T_("y", ("rank", 0), e.idx, ("u",))
                s = st.copy()
                if not (e.add_ge(s, lin_of(j)) and e.add_ge(s, ladd(lsub(hi, j), I(-1)))):
                    continue
                s = e.mod.apply_facts(e, s, al.a[0], {Pv: lin_of(j)})
                if s is None:
                    continue
                o = origin(e, s, tsub(x.a[1], {Pv: lin_of(j)}, {}), L)
                if o is None:
                    return None
                if e.keq(s, o[0], lin_of(j)) is not True:
                    return False
        return True
    if l2.tag in ("rev", "shuf"):
        return False
    return None


def rank_obs(e, st, r, L, kind):
    """[(ok, what)] for every recombination inside the result r"""
    out = []
    seen = set()

    def look(t):
        rr = rec_of(t)
        if rr is not None and len(rr) > 3 and len(rr[3]) == 1 and rr[3][0] not in seen:
            l2 = rr[3][0]
            seen.add(l2)
            if not any(y.tag == "y" and isinstance(y.a[0], tuple) and y.a[0] and y.a[0][0] == "el" for y in syms(l2)):
                out.append((ranked(e, st, l2, L), l2))
    nodes.walk_terms([r], look)
    return out


def whole(e, st, r, L):
    o = origin(e, st, r, L)
    return o is not None and o[1] == ()


def part(e, st, x, L, want):
    """x is the part of one parent at path `want`, or recombined from such parts"""
    o = origin(e, st, x, L)
    if o is not None:
        return [] if matches(e, st, o[1], want) else ["%s is taken from a different position" % show(x)[:100]]
    return child_list(e, st, e.deref_all(st, x), L, want)


def none_parent(e, st, L, ix):
    """some parent is known to lack the optional part"""
    found = []

    def look(t):
        if t.tag == "at" and t.a[0] is L:
            o = fld(t, ix, 0)
            if e.disc_of(st, o) == 0:
                found.append(t)
    nodes.walk_terms(list(st.facts()), look)
    return bool(found)


def provenance(e, st, r, L):
    r = e.deref_all(st, r)
    if whole(e, st, r, L):
        return []
    if rec_of(r) is not None:
        return child_list(e, st, r, L, ())
    if r.tag != "V" or r.a[0] != VN:
        return ["%s is not built from the parents" % show(r)[:100]]
    ix = r.a[1]
    k = NAMES[[e.dom.ix[x] for x in NAMES].index(ix)]
    out = []
    if k == "Const":
        return []
    if k in ("Real", "Int", "Bool", "Enum"):
        o = origin(e, st, r.a[2][0], L)
        return [] if o is not None and matches(e, st, o[1], (("f", ix, 0),)) else ["leaf value %s is not a parent's" % show(r.a[2][0])[:100]]
    if k in ("Sub", "Array", "AnonMap"):
        m = e.deref_all(st, r.a[2][0])
        if m.tag != "coll":
            o = origin(e, st, m, L)
            return [] if o is not None and matches(e, st, o[1], (("f", ix, 0),)) else ["contents are not a parent's"]
        if k == "Array":
            ok = len(m.a[1]) == 1 and m.a[1][0].tag == "all" and m.a[1][0].a[1] is I(0) and all(len(al.a[1]) == 1 and al.a[1][0].tag == "one" for al in m.a[1][0].a[3])
            if not ok:
                return ["?array is rebuilt in a form that cannot be related to the parents' positions"]
            Pv, lo, hi, alts = m.a[1][0].a
            for al in alts:
                j = T_("y", ("prov", 0), e.idx, ("u",))
                s = st.copy()
                if not (e.add_ge(s, lin_of(j)) and e.add_ge(s, ladd(lsub(hi, j), I(-1)))):
                    continue
                s = e.mod.apply_facts(e, s, al.a[0], {Pv: lin_of(j)})
                if s is not None:
                    out += part(e, s, tsub(al.a[1][0].a[1], {Pv: lin_of(j)}, {}), L, (("f", ix, 0), ("k", lin_of(j))))
            return out
        for s, key, x in elements(e, st, m):
            out += part(e, s, x, L, (("f", ix, 0), ("k", key)))
        return out
    if k == "Variant":
        nm, child = r.a[2]
        nm = e.deref_all(st, nm)
        o = origin(e, st, nm, L)
        if o is None or not matches(e, st, o[1], (("f", ix, 0),)):
            out.append("variant option %s is not known to be a parent's" % show(nm)[:100])
        child = e.deref_all(st, child)
        rr = rec_of(child)
        if rr is not None and len(rr) > 3 and len(rr[3]) == 1:
            for s, key, v in elements(e, st, rr[3][0], "prov"):
                oo = origin(e, s, v, L)
                if oo is None or not matches(e, s, oo[1], (("f", ix, 1),)):
                    out.append("variant content is recombined with a foreign part")
                elif e.keq(s, fld(T_("at", L, oo[0]), ix, 0), nm) is not True:
                    out.append("variant content is recombined with a parent that chose another option")
        else:
            oo = origin(e, st, child, L)
            if oo is None or not matches(e, st, oo[1], (("f", ix, 1),)) or e.keq(st, fld(T_("at", L, oo[0]), ix, 0), nm) is not True:
                out.append("variant content is not one of a parent that chose the same option")
        return out
    if k == "Optional":
        o = e.deref_all(st, r.a[2][0])
        oo = origin(e, st, o, L)
        if oo is not None:
            return [] if matches(e, st, oo[1], (("f", ix, 0),)) else ["presence is taken from a different position"]
        for s, pv in e.mod.opt_cases(e, st.copy(), o):
            if pv is None:
                if not none_parent(e, s, L, ix):
                    out.append(("?" if nodes.counted(s) else "") + "the optional part is absent although no parent is known to lack it")
            else:
                out += part(e, s, pv, L, (("f", ix, 0), ("f", 1, 0)))
        return out
    return []


# ---- running --------------------------------------------------------------------------------------
def run_kind(prog, mode, fn, pat, kind, genv, skip):
    an = CrossAnalysis(prog, mode, skip)
    an.genv[fn] = genv
    an.done[(fn, pat)] = True
    obs = []
    name = "%s/%s" % (short(fn), kind)

    def mk(e):
        st, args, specs = an.inputs(e, fn, pat)
        e.specs = specs
        st.disc[specs[0]] = e.dom.ix[kind]
        if pres is not None:
            st.disc[fld(an.ident, e.dom.ix[kind], 0)] = pres
        return st, args
    res = []

    def post(e, s, r, args):
        res.append(1)
        r = e.deref_all(s, r)
        if mode == "gen":
            for pr in check_conf(e, s, r, e.specs[0]):
                an.problem(e, "result", pr)
            why = provenance(e, s, r, an.parents)
            for ok, l2 in rank_obs(e, s, r, an.parents, kind):
                if ok is True:
                    ranks.append(kind)
                else:
                    obs.append(("C17", Ob("ranked-parts/%s" % kind, UNDECIDED if ok is None or tainted(l2) or nodes.counted(s) else BAD, "the parts of a %s node are recombined from all parents that have the part, in rank order" % kind, name, show(l2)[:400])))
            for w in why:
                und = w.startswith("?") or tainted(r)
                obs.append(("C12", Ob("provenance/%s/%s" % (kind, w.lstrip("?").split(" %s" % "")[0][:0] + gist(w)), UNDECIDED if und else BAD, "recombining %s nodes: %s" % (kind, w.lstrip("?")), name, show(r)[:500])))
        elif mode == "one":
            if not whole(e, s, r, an.parents) and kind != "Const":
                why = ["the offspring of a single parent is rebuilt: " + show(r)[:150]] if True else []
                v = T_("at", an.parents, I(0))
                why = same_value(e, s, r, v)
                if why:
                    obs.append(("C12", Ob("single/%s" % kind, UNDECIDED if tainted(r) else BAD, "the offspring of a single %s parent differs from it: %s" % (kind, why[0]), name)))
        elif mode == "ident":
            if kind != "Const":
                why = same_value(e, s, r, an.ident)
                if why:
                    obs.append(("C12", Ob("identical/%s" % kind, UNDECIDED if tainted(r) or unsure(why) else BAD, "the offspring of identical %s parents differs from them: %s" % (kind, "; ".join(why[:2])), name)))
        elif mode == "cross":
            if kind in ("Sub", "Array", "AnonMap", "Variant", "Optional") and whole(e, s, r, an.parents):
                obs.append(("C17", Ob("recombines/%s" % kind, BAD, "with crossover probability 1 a %s node is copied from one parent as a whole instead of being recombined" % kind, name)))
    ranks = []
    for pres in ((0, 1) if mode == "ident" and kind == "Optional" else (None,)):
        an.run_entry(name, fn, mk, post, genv)
    if ranks and not any(o.key.startswith("ranked-parts/") for t, o in obs):
        obs.append(("C17", Ob("ranked-parts/%s" % kind, GOOD, "the parts of a %s node are recombined from all parents that have the part, in rank order" % kind, name)))
    tag = {"gen": "C12", "one": "C12", "ident": "C12", "cross": "C17"}[mode]
    text = {"gen": "every part of a recombined %s comes from the parents at the same position, and parts are combined only among the parents that have them",
            "one": "the offspring of a single %s parent is that parent",
            "ident": "the offspring of identical %s parents is identical to them",
            "cross": "with crossover probability 1 a %s node is recombined part by part"}[mode] % kind
    key = {"gen": "provenance", "one": "single", "ident": "identical", "cross": "recombines"}[mode]
    for n, msg, stk in an.limits:
        for t in ("C01", "C12", "C15", "C17"):
            obs.append((t, Ob("crossover-%s/%s/limit" % (mode, kind), UNDECIDED, "%s: analysis gave up: %s" % (name, msg[:200]), name)))
    if not an.limits:
        obs.append((tag, Ob("%s/%s" % (key, kind), GOOD, text + " (%d result states)" % len(res), name)))
    if mode == "gen":
        if not an.limits:
            obs.append(("C01", Ob("crossover/%s" % kind, GOOD, "every recombined %s conforms to its specification node, and every recursive recombination gets conforming parents" % kind, name)))
            obs.append(("C15", Ob("crossover-panic/%s" % kind, GOOD, "no panic is reachable while recombining %s nodes" % kind, name)))
        for where, pr, stk, sp in an.problems:
            t = ("C15",) if "non-empty" in pr.what or "pressure" in pr.what or "range" in pr.what else ("C01",)
            for q in t:
                obs.append((q, Ob("crossover/%s/%s" % (kind, pr.what), verdict(pr), "recombining %s nodes: %s: %s" % (kind, short(where), pr.what), "%s (%s)" % (short(stk[-1]) if stk else "", sp), show(pr.term)[:500])))
        for n, ev in an.panics:
            d = ev.data
            ts = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
            what = d[0] if isinstance(d, tuple) and d else d
            obs.append(("C15", Ob("crossover-panic/%s/%s/%s" % (kind, short(ev.fn), what), UNDECIDED if any(tainted(x) for x in ts) else BAD, "panic reachable in %s while recombining %s nodes: %s" % (short(ev.fn), kind, what), ev.sp)))
    elif mode == "ident":
        for where, pr, stk, sp in an.problems:
            if "differing parts" in pr.what:
                obs.append(("C12", Ob("identical/%s/parts" % kind, verdict(pr), "recombining %s nodes: %s" % (kind, pr.what), name, show(pr.term)[:400])))
    return obs, [(f, q, an.genv.get(f, ())) for f, q in an.todo if f not in an.sel], an.soft, an.hard, an.bad_roots


def gist(w):
    return re.sub(r"[^a-z ]+", "", re.sub(r"\S*[(\[$].*", "", w.lstrip("?")))[:60].strip().replace(" ", "-")


def unsure(why):
    return all("not known" in w or "may change" in w for w in why) and False


def entry_run(prog, skip=frozenset()):
    an = CrossAnalysis(prog, "gen", skip)
    fn = entry(prog)
    obs = []
    if fn is None:
        return [("C12", Ob("entry/missing", UNDECIDED, "Crossover::crossover was not found"))], [], set(), set(), set()
    b = prog.bodies[fn]
    gen = tuple(T_("adt", SELI, ()) for _ in b.generics)

    def mk(e):
        spec = T_("y", "spec", (), ("spec",))
        lst = T_("y", "parents", (), (("confvl", spec), "nonempty"))
        e.specs = [fld(spec, 0, 0)]
        an.parents = lst
        args = []
        for i in range(b.argc):
            t = E._peel(b.ltys[i + 1])
            if t.tag == "adt" and t.a[0] == SPEC:
                args.append(spec)
            elif t.tag == "slice":
                args.append(lst)
            elif t.tag == "adt" and t.a[0] == roots.CP:
                args.append(an.param_sym(e, roots.CP, "cp"))
            elif t.tag == "adt" and t.a[0] in an.vol:
                args.append(T_("vol", t.a[0]))
            elif t.tag == "adt" and t.a[0] == CR:
                args.append(unit_of(prog, T_("adt", CR, gen)))
            else:
                args.append(e.fresh(t, ("arg", i)))
        return State(), args

    def post(e, s, r, args):
        r = e.deref_all(s, r)
        if r.tag == "V" and r.a[0] == VAL:
            r = r.a[2][0]
        for pr in check_conf(e, s, r, e.specs[0]):
            an.problem(e, "result", pr)
        L = an.parents
        r = e.deref_all(s, r)
        o = origin(e, s, r, L)
        why = []
        if o is None or not matches(e, s, o[1], (("f", 0, 0),)):
            why = child_list(e, s, r, L, (("f", 0, 0),))
            rr = rec_of(r)
            if not why and rr:
                l2 = rr[3][0]
                n_ok = e.ev(s, EQ0(lsub(LEN(l2), LEN(L)))) is True
                j = T_("y", ("order", 0), e.idx, ("u",))
                s2 = s.copy()
                okk = n_ok
                if n_ok and e.add_ge(s2, lin_of(j)) and e.add_ge(s2, ladd(lsub(LEN(L), j), I(-1))):
                    for s3, k3, v3 in e.mod.item(e, s2, l2, lin_of(j)):
                        oo = origin(e, s3, v3, L)
                        if oo is None or e.keq(s3, oo[0], lin_of(j)) is not True:
                            okk = False
                obs.append(("C17", Ob("ranked-parents", GOOD if okk else UNDECIDED if tainted(l2) else BAD, "recombination sees all parents in rank order", short(fn))))
        for w in why:
            obs.append(("C12", Ob("provenance/entry/" + gist(w), UNDECIDED if tainted(r) else BAD, "recombination: " + w, short(fn), show(r)[:400])))
    an.run_entry("crossover", fn, mk, post, gen)
    for n, msg, stk in an.limits:
        for t in ("C01", "C12", "C15", "C17"):
            obs.append((t, Ob("crossover/entry/limit", UNDECIDED, "crossover: analysis gave up: %s" % msg[:200], short(fn))))
    if not an.limits:
        obs.append(("C12", Ob("provenance/entry", GOOD, "the offspring is recombined from the parents' root nodes", short(fn))))
        obs.append(("C01", Ob("crossover/entry", GOOD, "the offspring conforms to the specification", short(fn))))
        obs.append(("C15", Ob("crossover-panic/entry", GOOD, "no panic is reachable on entry to recombination", short(fn))))
    for where, pr, stk, sp in an.problems:
        t = "C15" if "non-empty" in pr.what or "pressure" in pr.what or "range" in pr.what else "C01"
        obs.append((t, Ob("crossover/entry/%s" % pr.what, verdict(pr), "recombination: %s: %s" % (short(where), pr.what), sp, show(pr.term)[:400])))
    for n, ev in an.panics:
        obs.append(("C15", Ob("crossover-panic/entry/%s" % (ev.data[0] if isinstance(ev.data, tuple) else ev.data), BAD, "panic reachable in %s" % short(ev.fn), ev.sp)))
    return obs, [(f, q, an.genv.get(f, ())) for f, q in an.todo if f not in an.sel], an.soft, an.hard, an.bad_roots


def unit_of(prog, t):
    """the value of a type without data"""
    a = prog.adts[t.a[0]]["variants"][0]
    fs = []
    for n, ft in a["fields"]:
        ft = prog.subst(ft, t.a[1])
        fs.append(unit_of(prog, ft))
    return V(t.a[0], 0, *fs)


def misfit(ctx, kinds):
    """helpers whose early cut does not fit them, found by the general mode"""
    k = ("crossover-skip", kinds)
    return ctx.once(k, lambda: [frozenset()])


def obligations(ctx, mode="gen", kinds=None):
    cell = misfit(ctx, tuple(kinds or ()))

    def attempt(skip):
        out, todo, soft, hard, badr = entry_run(ctx.p, skip)
        if mode != "gen":
            out = []
        seen = set()
        while todo:
            jobs = []
            for fn, pat, genv in todo:
                if (fn, pat) in seen:
                    continue
                seen.add((fn, pat))
                for k in (kinds or NAMES):
                    jobs.append((fn, pat, k, genv, skip))
            todo = []
            for j, (st, r) in zip(jobs, parallel([(lambda j=j: run_kind(ctx.p, mode, *j)) for j in jobs])):
                if st != "ok":
                    for t in ("C01", "C12", "C15", "C17"):
                        out.append((t, Ob("crossover-%s/%s/internal" % (mode, j[2]), UNDECIDED, str(r).strip().splitlines()[-1][:200], detail=str(r)[-1500:])))
                    continue
                out += r[0]
                todo += r[1]
                soft |= r[2]
                hard |= r[3]
                badr |= r[4]
            if len(seen) > 12:
                out.append(("C12", Ob("crossover/patterns", UNDECIDED, "too many ways to call the recombination")))
                break
        return out, (soft - hard) & badr

    def go():
        if mode != "gen":
            obligations(ctx, "gen", kinds)
            return attempt(cell[0])[0]
        for _ in range(4):
            out, more = attempt(cell[0])
            if not more - cell[0]:
                break
            cell[0] = cell[0] | more
        return out
    return ctx.once(("crossover", mode, tuple(kinds or ())), go)


def pick(ctx, prop, modes):
    got = False
    for m in modes:
        for t, o in obligations(ctx, m):
            if t == prop:
                got = True
                yield o
    if not got:
        yield Ob("crossover/none", UNDECIDED, "no recombination was analysed")


@rule("crossover-conforms", "C01", "abstract interpretation of crossover, per node kind: offspring of conforming parents conform")
def _(ctx, prop):
    yield from pick(ctx, prop, ("gen",))


@rule("crossover-panics", "C15", "abstract interpretation of crossover, per node kind: no reachable panic")
def _(ctx, prop):
    yield from pick(ctx, prop, ("gen",))


@rule("crossover-provenance", "C12", "abstract interpretation of crossover, per node kind: every part of the offspring is traced to the parents at the same position")
def _(ctx, prop):
    yield from pick(ctx, prop, ("gen", "one", "ident"))


@rule("crossover-live", "C17", "abstract interpretation of crossover with probability 1: structures are recombined part by part, from all parents in rank order")
def _(ctx, prop):
    yield from pick(ctx, prop, ("cross", "gen"))


# ---- selection --------------------------------------------------------------------------------------
def selection_obs(ctx):
    def go():
        p = ctx.p
        out = []
        for b in selectors(p):
            bd = p.bodies[b]
            an = roots.Analysis(p)
            L = T_("y", "L", (), ("nonempty",))
            pr = T_("y", "pressure", (), ())
            res = []

            def mk(e):
                e.dom.fintab[pr] = (0.0, 1.0, False)
                args = []
                for i in range(bd.argc):
                    t = E._peel(bd.ltys[i + 1])
                    if t.tag == "slice":
                        args.append(L)
                    elif t.tag == "float":
                        args.append(pr)
                    elif t.tag == "adt" and t.a[0] in an.vol:
                        args.append(T_("vol", t.a[0]))
                    elif t.tag == "adt" and t.a[0] == SELI:
                        args.append(unit_of(p, t))
                    else:
                        args.append(e.fresh(t, ("arg", i)))
                return State(), args

            def post(e, s, r, args):
                r = e.deref_all(s, r)
                o = origin(e, s, r, L)
                n = short(b)
                if o is None or o[1] != ():
                    und = tainted(r)
                    out.append((("C12", "C17"), Ob("selection/result", UNDECIDED if und else BAD, "selection returns something that is not one of the individuals offered", n, show(r)[:300])))
                    return
                ix = lin_of(o[0])
                res.append(ix)
                draws = [y for f in s.facts() if f[0] == "pr" and f[2] for y in [f[1]]]
                for d in draws:
                    keys = syms(d.a[2]) if d.tag == "y" and len(d.a) > 2 and isinstance(d.a[2], T) else set()
                    for y in keys or counters(d):
                        c = coef(ix, y)
                        if c is not None and c < 0:
                            out.append((("C17",), Ob("selection/rank-order", UNDECIDED, "the draws that prefer good individuals go through the individuals from the worst to the best", n, show(ix))))
            an.run_entry("selection", b, mk, post, tuple(T_("adt", VN, ()) for _ in bd.generics))
            n = short(b)
            for _, msg, stk in an.limits:
                out.append((("C12", "C15", "C17"), Ob("selection/limit", UNDECIDED, "selection: analysis gave up: " + msg[:200], n)))
            if an.limits:
                continue
            for nm, ev in an.panics:
                what = ev.data[0] if isinstance(ev.data, tuple) and ev.data else ev.data
                out.append((("C15",), Ob("selection/panic/%s" % what, BAD, "selecting from a non-empty list with a pressure in [0, 1] can panic: %s" % what, ev.sp)))
            e = an.engines[-1][1]
            bern = [ev.data[0] for ev in e.all_events("bern")]
            ch = [ev.data[0] for ev in e.all_events("choose")]
            if bern and all(x is pr for x in bern):
                out.append((("C17",), Ob("selection/pressure", GOOD, "every preference draw succeeds with the selection pressure", n)))
            elif bern:
                x = [x for x in bern if x is not pr][0]
                out.append((("C17",), Ob("selection/pressure", UNDECIDED, "a preference draw does not succeed with the selection pressure but with %s" % show(x)[:80], n)))
            for c in ch:
                if c is not L:
                    out.append((("C17",), Ob("selection/uniform", UNDECIDED, "the fallback choice is not made among all individuals", n, show(c)[:300])))
            if bern and not ch and not any(syms(i) for i in res):
                out.append((("C17",), Ob("selection/diversity", UNDECIDED, "selection always returns the same position", n)))
            out.append((("C12", "C17"), Ob("selection/element", GOOD, "selection returns one of the individuals offered (%d result states)" % len(res), n)))
            out.append((("C15",), Ob("selection/panic-free", GOOD, "no panic for a non-empty list and a pressure in [0, 1]", n)))
        if not out:
            out.append((("C12", "C15", "C17"), Ob("selection/missing", UNDECIDED, "no implementation of select_ref was found")))
        return out
    return ctx.once("selection", go)


def counters(d):
    return {y for y in syms(d)} - {d}


def coef(l, y):
    if l is y:
        return 1
    l = lin_of(l)
    for t, c in l.a[1]:
        if t is y:
            return c
    return None


RANKS = {"quick": (1, 2, 3, 4, 5, 7, 10, 19, 20, 21, 50, 51, 64, 99, 100, 101), "thorough": tuple(range(1, 131))}


def rank_distribution(ctx, b, n):
    """the exact distribution of the rank that is picked from n individuals, as weights in the pressure q:
    ('ok', [[(a, b, f)] per rank]) or ('und', why)"""
    import draws
    p = ctx.p
    bd = p.bodies[b]
    an = roots.Analysis(p)
    pr = T_("y", "pressure", (), ())
    inds = [T_("y", ("ind", i), (), ()) for i in range(n)]
    L = T_("g", "inds")
    res = []

    def mk(e):
        e.dom.fintab[pr] = (0.0, 1.0, False)
        draws.install(e, pr)
        e.limit_steps = 40000
        e.unroll_all = n + 2
        st = State()
        st.cells[L] = E.COLL("vec", tuple(T_("one", E.NOKEY, x) for x in inds), I(n))
        draws.start(st)
        args = []
        for i in range(bd.argc):
            t = E._peel(bd.ltys[i + 1])
            if t.tag == "slice":
                args.append(T_("ref", L, ()))
            elif t.tag == "float":
                args.append(pr)
            elif t.tag == "adt" and t.a[0] in an.vol:
                args.append(T_("vol", t.a[0]))
            elif t.tag == "adt" and t.a[0] == SELI:
                args.append(unit_of(p, t))
            else:
                args.append(e.fresh(t, ("arg", i)))
        return st, args

    def post(e, s, r, args):
        if e.feasible(s):
            res.append((e.deref_all(s, r), draws.weight(s)))
    an.run_entry("selection-%d" % n, b, mk, post, tuple(T_("adt", VN, ()) for _ in bd.generics))
    e = an.engines[-1][1]
    if an.limits:
        return "und", an.limits[0][1]
    if e.opaque:
        return "und", sorted(e.opaque)[0]
    if e.unknown:
        return "und", "unmodelled: %s" % (sorted(map(str, e.unknown))[0])
    ms = [[] for _ in inds]
    for r, w in res:
        if r not in inds:
            return "und", "result %s" % show(r)[:100]
        ms[inds.index(r)].append(w)
    tot = draws.bernstein([w for x in ms for w in x])
    one = draws.bernstein([(0, 0, Fraction(1))], len(tot) - 1)
    if tot != one:
        return "und", "the cases depend on the pressure otherwise than by draws"
    return "ok", ms


def pressure_obs(ctx):
    def go():
        import draws
        out = []
        for b in selectors(ctx.p):
            nm = short(b)
            ns = RANKS["thorough" if ctx.tier == "thorough" else "quick"]
            und = None
            done = 0
            parts = [ns[j::8] for j in range(8)]
            got = {}
            for part, (k, r) in zip(parts, parallel([lambda part=part: [rank_distribution(ctx, b, n) for n in part] for part in parts])):
                for j, n in enumerate(part):
                    got[n] = r[j] if k == "ok" else ("und", str(r).strip().splitlines()[-1])
            for n in ns:
                st, d = got[n]
                if st == "und":
                    und = und or (n, d)
                    continue
                done += 1
                for i in range(n - 1):
                    x = draws.nonneg(d[i] + [(a, c, -f) for a, c, f in d[i + 1]])
                    if x is None:
                        und = und or (n, "the sign of the difference between ranks %d and %d was not decided" % (i, i + 1))
                    elif x is not True:
                        out.append(Ob("selection/rank-probability", BAD, "with %d individuals and selection pressure %s, rank %d is picked with probability %.4g and rank %d with probability %.4g" % (
                            n, x, i, float(draws.value(d[i], x)), i + 1, float(draws.value(d[i + 1], x))), nm))
                        break
                # some pressure must prefer the best over the worst
                if n > 1 and all(draws.value(d[0], Fraction(j, 10)) == draws.value(d[-1], Fraction(j, 10)) for j in range(11)):
                    out.append(Ob("selection/preference", BAD, "with %d individuals the best is never preferred to the worst, whatever the selection pressure" % n, nm))
            if und:
                out.append(Ob("selection/rank-probability/undecided", UNDECIDED, "%d individuals: %s" % und, nm))
            ctx.stats["selection_sizes_" + nm] = done
            if not any(o.status == BAD for o in out):
                out.append(Ob("selection/rank-probability", UNDECIDED if und and not done else GOOD, "the probability of picking a rank, as a polynomial in the selection pressure, never increases with the rank (%d list lengths)" % done, nm))
        return out
    return ctx.once("rank-probability", go)


@rule("selection-probability", "C17", "exact distribution of the selected rank as a polynomial in the selection pressure, for lists of given lengths: never increasing with the rank for any pressure in [0, 1]")
def _(ctx, prop):
    yield from pressure_obs(ctx)


@rule("selection", "C12 C15 C17", "abstract interpretation of select_ref: it returns one of the individuals offered, prefers by rank with the given pressure, and cannot panic")
def _(ctx, prop):
    for ts, o in selection_obs(ctx):
        if prop in ts:
            yield o
