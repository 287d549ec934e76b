"""The algorithm core (AlgoContext): its methods are interpreted from an arbitrary state satisfying an
inductive invariant, with the ranked population as an ordered map whose versions are terms."""
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
from models import D, ppx
import nodes
import prog as P
import roots
from nodes import SPEC, VAL, check_conf, Problem, tainted

AC = "cambrian::algorithm::AlgoContext"
IC = "cambrian::algorithm::IndContext"
GH = T_("g", "accepted")
INS, DEL, PHI = "pop:ins", "pop:del", "phi"


def bt(t):
    return t.tag == "adt" and t.a[0].endswith("BTreeMap")


def isfin(t):
    return t.tag == "float" or t.tag == "adt" and t.a[0].split("::")[-1] in ("Finite", "FiniteF64", "NotNan", "OrderedFloat")


def fields(p, adt):
    return p.adts[adt]["variants"][0]["fields"]


class Missing(Exception):
    pass


class Shape:
    """where the pieces of the algorithm state are"""

    def __init__(self, p):
        self.p = p
        if AC not in p.adts or IC not in p.adts:
            raise Missing("the algorithm core's types were not found")
        self.ac = fields(p, AC)
        self.ic = fields(p, IC)
        pops = [i for i, (n, t) in enumerate(self.ac) if bt(t) and t.a[1][1].tag == "adt" and t.a[1][1].a[0] == IC]
        if len(pops) != 1:
            raise Missing("the population is not one ordered map of individuals")
        self.pop = pops[0]
        self.key = self.ac[self.pop][1].a[1][0]
        ids = [i for i, (n, t) in enumerate(self.ic) if t.tag == "int"]
        if len(ids) > 1:
            ids = [i for i in ids if self.ic[i][0] == "id"]
        vals = [i for i, (n, t) in enumerate(self.ic) if t.tag == "adt" and t.a[0] == VAL]
        sts = [i for i, (n, t) in enumerate(self.ic) if t.tag == "adt" and t.a[0].startswith("cambrian") and len(p.adts[t.a[0]]["variants"]) > 1]
        metas = [i for i, (n, t) in enumerate(self.ic) if t.tag == "adt" and t.a[0] == OPT]
        if len(ids) != 1 or len(vals) != 1 or len(sts) != 1 or len(metas) != 1:
            raise Missing("the fields of an individual were not recognised")
        self.id, self.val, self.st, self.meta = ids[0], vals[0], sts[0], metas[0]
        self.state = self.ic[self.st][1].a[0]
        # a state with the values returned so far, or the final value
        self.lists = [i for i, v in enumerate(p.adts[self.state]["variants"]) if len(v["fields"]) == 1 and v["fields"][0][1].tag == "adt" and v["fields"][0][1].a[0].endswith("Vec")]
        self.finals = [i for i, v in enumerate(p.adts[self.state]["variants"]) if len(v["fields"]) == 1 and isfin(v["fields"][0][1])]
        if len(self.lists) != 2 or len(self.finals) != 1:
            raise Missing("the sampling states of an individual were not recognised")
        self.final = self.finals[0]
        if not (self.key.tag == "adt" and self.key.a[0] in p.adts and len(p.adts[self.key.a[0]]["variants"]) == 1):
            raise Missing("the ordering key was not recognised")
        ks = fields(p, self.key.a[0])
        self.kid = [i for i, (n, t) in enumerate(ks) if t.tag == "int"]
        self.kobj = [i for i, (n, t) in enumerate(ks) if isfin(t)]
        if len(self.kid) != 1 or len(self.kobj) != 1:
            raise Missing("the fields of the ordering key were not recognised")
        self.kid, self.kobj = self.kid[0], self.kobj[0]
        self.m = {n: P.method(p, AC, n) for n in ("new", "next_individual", "process_individual_eval", "best_seen_final")}
        for n, f in self.m.items():
            if f is None:
                raise Missing("AlgoContext::%s was not found" % n)


class PopDomain(nodes.NodeDomain):
    """facts about the individuals in the population"""

    def ent(self, t):
        """is t an individual of the population?"""
        return t.tag == "at" and self.ispop(t.a[0])

    def ispop(self, t):
        return t.tag == "y" and "pop" in t.a[2]

    def is_map(self, c):
        return self.ispop(c) or super().is_map(c)

    def lub_attrs(self, states, ts):
        if all(self.ispop(t) or t.tag == "coll" and t.a[0] == "bmap" and not t.a[1] for t in ts):
            return ["pop", "u"]
        return super().lub_attrs(states, ts)

    def sfield(self, t, v=None):
        """t is a payload of the state of an individual of the population"""
        if t.tag == "fld" and t.a[2] == 0 and (v is None or t.a[1] == v):
            s = t.a[0]
            if s.tag == "fld" and s.a[1] == 0 and s.a[2] == self.sh.st and self.ent(s.a[0]):
                return s.a[0]
        return None

    def disc_excl(self, st, t):
        if t.tag == "fld" and t.a[1] == 0 and t.a[2] == self.sh.st and self.ent(t.a[0]) and self.pending is not None:
            return (self.pending,)
        return super().disc_excl(st, t)

    def lin_facts(self, st, a):
        out = list(super().lin_facts(st, a))
        if a.tag == "len" and self.pending is not None:
            t = a.a[0]
            if t.tag == "fld" and t.a[1] in self.sh.lists and t.a[1] != self.pending and self.sfield(t) is not None:
                out += [ladd(lin_of(a), I(-1)), ladd(lsub(self.ss, lin_of(a)), I(-1))]
        return out

    def _conf1(self, t):
        return super()._conf1(t)

    def attr(self, t, k):
        if k == "confv" and t.tag == "fld" and t.a[1] == 0 and t.a[2] == self.sh.val and self.ent(t.a[0]):
            return self.spec
        return super().attr(t, k) if t.tag == "y" else None

    def f_int(self, st, t):
        if t.tag == "fld" and t.a[1] == 0:
            o = self.params.get((t.a[2], self.ptype(t.a[0])))
            if o is not None:
                return o
        return super().f_int(st, t)

    def ptype(self, t):
        """t is the crossover or mutation parameters of an individual of the population"""
        if t.tag == "fld" and t.a[1] == 0:
            w = t.a[0]
            if w.tag == "fld" and w.a[1] == 1 and w.a[2] == 0:
                m = w.a[0]
                if m.tag == "fld" and m.a[1] == 0 and m.a[2] == self.sh.meta and self.ent(m.a[0]):
                    return self.wrap.get(t.a[2])
        return None


class Core(roots.Analysis):
    def __init__(self, prog, sh, single):
        super().__init__(prog, "gen")
        self.sh = sh
        self.single = single
        self.obs = []
        self.ss = I(1) if single else lin_of(T_("y", "samplesize", (), ("u",)))
        self.v = T_("y", "returned", (), ())
        self.wit = None

    # ---- obligations
    def ob(self, e, st, key, ok, text, data=(), taint=()):
        if isinstance(ok, T):
            r = e.ev(st, ok)
            if r is None:
                good, bad = e.split(st.copy(), ok)
                r = not any(e.feasible(b) for b in bad)
            ok = r
        if not ok and not e.feasible(st):
            return True
        und = any(tainted(x) for x in tuple(data) + tuple(taint) if isinstance(x, T)) or bool(e.unknown)
        self.obs.append((key, "ok" if ok else "und" if und else "bad", text, tuple(show(x)[:300] if isinstance(x, T) else str(x) for x in data)))
        return ok

    # ---- the engine
    def engine(self):
        sh, p = self.sh, self.p
        d = PopDomain(p)
        d.sh = sh
        d.ss = self.ss
        d.pending = getattr(self, "pending", None)
        d.spec = self.spec = T_("y", "spec", (), ("spec",))
        d.params = {}
        d.wrap = {}
        W = None
        for i, (n, t) in enumerate(sh.ic):
            if i == sh.meta:
                W = t.a[1][0]
        self.W = W
        if W.tag == "adt" and W.a[0] in p.adts:
            for i, (n, t) in enumerate(fields(p, W.a[0])):
                if t.tag == "adt" and t.a[0] in (roots.MP, roots.CP):
                    d.wrap[i] = t.a[0]
                    for j, n2 in roots.float_fields(p, t.a[0]):
                        d.params[(j, t.a[0])] = (0.0, 1.0, False) if n2.endswith("prob") or "pressure" in n2 else (5e-324, FMAX, False)
        e = Engine(p, d)
        d.eng = e
        e.volatile = set(self.vol)
        e.constfields = self.cf
        e.contract_for = self.contract
        e.an = self
        e.wits = [self.wit] if self.wit is not None else []
        e.limit_steps = 400000
        self.install(e)
        for adt in (roots.MP, roots.CP):
            self.param_sym(e, adt, "ov")
        return e

    def contract(self, e, st, fn, args, info, early=False):
        if early:
            return None
        return super().contract(e, st, fn, args, info, early)

    def install(self, e):
        p, sh = self.p, self.sh
        C = e.contracts
        c = self

        def conf(e, st, v, what):
            v = e.deref_all(st, v)
            if v.tag == "V" and v.a[0] == VAL:
                node = v.a[2][0]
            else:
                node = fld(v, 0, 0)
            pr = check_conf(e, st, node, fld(c.spec, 0, 0))
            c.ob(e, st, "C01/" + what, not pr, "the value that is mutated or recombined conforms to the specification", (v,), ())

        def value(pp, tag):
            return T_("y", pp + (tag,), e.idx, (("confv", c.spec),))

        def typed(fn, a, adt):
            b = p.bodies[fn]
            for i in range(b.argc):
                t = E._peel(b.ltys[i + 1])
                if t.tag == "adt" and t.a[0] == adt:
                    return a[i]
            return None

        def params(e, st, fn, a, adt, what):
            x = typed(fn, a, adt)
            if x is None:
                return
            bad = c.param_ok(e, st, e.deref_all(st, x), adt)
            for q in ("C14", "C15"):
                c.ob(e, st, "%s/params/%s" % (q, what), not bad, "the adaptive parameters handed to %s lie inside their ranges" % what, [y for n, y, iv in bad])

        def mutate(fn):
            def h(e, st, a, info):
                conf(e, st, typed(fn, a, VAL), "mutate")
                params(e, st, fn, a, roots.MP, "mutation")
                x = value(info.pp, "mutated")
                v, q = typed(fn, a, VAL), typed(fn, a, roots.MP)
                if v is not None and q is not None:
                    st.cells[T_("g", "mutated", x)] = T_("tup", (whole(e, st, v), whole(e, st, q)))
                return [(st, x)]
            return h
        fn = "cambrian::mutation::mutate"
        if fn in p.bodies:
            C[fn] = mutate(fn)
        import rules_cross
        fn = rules_cross.entry(p)

        def cross(fn):
            def h(e, st, a, info):
                b = p.bodies[fn]
                lst = None
                for i in range(b.argc):
                    t = E._peel(b.ltys[i + 1])
                    if t.tag == "slice" or t.tag == "adt" and t.a[0].endswith("Vec"):
                        lst = e.deref_all(st, a[i])
                params(e, st, fn, a, roots.CP, "recombination")
                if lst is not None:
                    c.ob(e, st, "C15/parents", e.ent_ge(st, ladd(LEN(lst), I(-1))) or nodes.witness_nonempty(e, st, lst), "recombination gets at least one parent", (lst,))
                    j = T_("y", ("par", 0), e.idx, ("u",))
                    s = st.copy()
                    if e.add_ge(s, lin_of(j)) and e.add_ge(s, ladd(lsub(LEN(lst), j), I(-1))):
                        pop0 = c.cur(e, s)
                        ok = e.ev(s, EQ0(lsub(LEN(lst), LEN(pop0)))) is True
                        seen = []
                        for s2, k, v in e.mod.item(e, s, lst, lin_of(j)):
                            v = e.deref_all(s2, v)
                            seen.append(v)
                            conf(e, s2, v, "parent")
                            want = fld(T_("at", pop0, T_("kat", pop0, lin_of(j))), 0, sh.val)
                            ok = ok and v is want
                        c.ob(e, st, "C17/parents", ok, "recombination sees the whole population, best first", seen)
                        c.ob(e, st, "C12/parents", all(c.popval(e, v) for v in seen), "recombination's parents are individuals of the population", seen)
                x = value(info.pp, "crossed")
                q = typed(fn, a, roots.CP)
                if q is not None:
                    st.cells[T_("g", "crossed", x)] = whole(e, st, q)
                return [(st, x)]
            return h
        if fn:
            C[fn] = cross(fn)
        for b in rules_cross.selectors(p):
            C[b] = self.select
        for b in p.bodies:
            if b.startswith("cambrian::meta_adapt::") and "{" not in b:
                C[b] = self.meta(b)
            if b.startswith("cambrian::value::") and b.endswith("::to_json"):
                C[b] = lambda e, st, a, info: [(st, T_("y", info.pp + ("json",), e.idx, ()))]
        f = P.method(p, SPEC, "initial_value")
        if f:
            C[f] = lambda e, st, a, info: [(st, c.initval(e.deref_all(st, a[0])))]
        O = e.overrides

        def popof(e, st, a):
            x = e.deref_all(st, a[0])
            return x if e.dom.ispop(x) else None

        def newpop(e, tag, prev, key, val, n):
            return T_("y", (tag, prev, key, val), e.idx, ("pop", "u"))

        def insert(e, st, a, info):
            x = popof(e, st, a)
            if x is None:
                z = e.deref_all(st, a[0])
                if z.tag == "coll" and not z.a[1] and z.a[0] == "bmap":
                    x = z
                else:
                    return None
            k, v = e.deref_all(st, a[1]), e.deref_all(st, a[2])
            y = newpop(e, INS, x, k, v, 1)
            e.add_ge(st, lsub(LEN(y), ladd(LEN(x), I(1))))
            e.add_ge(st, lsub(ladd(LEN(x), I(1)), LEN(y)))
            setref(e, st, a[0], y)
            c.inserted(e, st, x, k, v)
            st.cells[GH] = V("pop:ghost", 1)
            return [(st, NONE)]
        O["BTreeMap::insert"] = insert

        def removal(e, st, a, x, pos, key, val):
            c.removed(e, st, x, pos)
            y = newpop(e, DEL, x, key, UNIT, -1)
            e.add_ge(st, lsub(LEN(y), ladd(LEN(x), I(-1))))
            e.add_ge(st, lsub(ladd(LEN(x), I(-1)), LEN(y)))
            setref(e, st, a[0], y)

        def remove(e, st, a, info):
            x = popof(e, st, a)
            if x is None:
                return None
            k = e.deref_all(st, a[1])
            pos = c.pos(e, k, x)
            if pos is None:
                raise EngineLimit("removal of an unknown key from the population: " + show(k)[:100])
            key = T_("kat", x, pos)
            v = T_("at", x, key)
            removal(e, st, a, x, pos, key, v)
            return [(st, SOME(T_("tup", (key, v)) if info.key.endswith("entry") else v))]
        O["BTreeMap::remove"] = remove
        O["BTreeMap::remove_entry"] = remove

        def pop_end(last, take, ent=False):
            def h(e, st, a, info):
                x = popof(e, st, a)
                if x is None:
                    return None
                ne, em = e.split(st, GE0(ladd(LEN(x), I(-1))))
                out = [(s, NONE) for s in em]
                for s in ne:
                    pos = ladd(LEN(x), I(-1)) if last else I(0)
                    key = T_("kat", x, pos)
                    v = T_("at", x, key)
                    if take:
                        removal(e, s, a, x, pos, key, v)
                    out.append((s, SOME(T_("tup", (key, v)))))
                return out
            return h
        O["BTreeMap::pop_last"] = pop_end(True, True)
        O["BTreeMap::pop_first"] = pop_end(False, True)
        O["BTreeMap::last_key_value"] = pop_end(True, False)
        O["BTreeMap::first_key_value"] = pop_end(False, False)

        def lose(e, st, a, info):
            x = popof(e, st, a)
            if x is None:
                return None
            raise EngineLimit("the population is changed by " + info.key)
        for n in ("retain", "clear", "split_off", "append", "entry", "first_entry", "last_entry", "extract_if", "get_mut", "values_mut", "iter_mut"):
            O["BTreeMap::" + n] = lose
        # cloning a key or a value gives the same key or value
        O["Clone::clone"] = self.clone
        O["ToOwned::to_owned"] = self.clone
        for b, im in ((b, im) for im in p.impls if (im.get("trait") or "").split("::")[-1] == "Clone" for b in im["items"].values()):
            C[b] = self.clone
        # the mean of the values returned for an individual
        f = "cambrian::algorithm::summary_obj_func_val"
        if f in p.bodies:
            def mean(e, st, a, info):
                l = e.deref_all(st, a[0])
                return [(st, c.mean(e, st, l))]
            C[f] = mean
            c.meanfn = f
        for b, body in p.bodies.items():
            if b.startswith("cambrian::path::") and "{closure" not in b and body.argc and E._peel(body.ltys[1]).tag == "adt" and E._peel(body.ltys[1]).a[0] in self.vol:
                C[b] = lambda e, st, a, info: [(st, e.fresh(info.dty, info.pp))]
        # log output
        for b, body in p.bodies.items():
            if b.startswith("cambrian::algorithm::") and body.argc == 1 and "{closure" not in b and body.ltys[0].tag == "tuple" and not body.ltys[0].a[0] and body.ltys[1].tag == "ref" and p.defs.get(b, {}).get("kind") in ("Fn", "AssocFn") and not self.mutref(b):
                C[b] = lambda e, st, a, info: [(st, UNIT)]

    def mutref(self, b):
        """does the function write through its first argument?"""
        for bl in self.p.bodies[b].blocks:
            for x in bl.st:
                if x["s"] == "=":
                    if x["p"][0] == 1 and x["p"][1]:
                        return True
                    if x["v"]["r"] == "ref" and x["v"].get("mut") and x["v"]["p"][0] == 1:
                        return True
            if bl.tm["t"] == "call":
                for o in bl.tm["args"]:
                    if o["o"] == "move" and o["p"][0] == 1 and not o["p"][1]:
                        return True
        return False

    def initval(self, spec):
        return T_("y", ("initial", spec), (), (("confv", spec),))

    def clone(self, e, st, a, info):
        return [(st, e.deref_all(st, a[0]))]

    def mean(self, e, st, l):
        if l.tag == "coll" and len(l.a[1]) == 1 and l.a[1][0].tag == "one":
            return l.a[1][0].a[1]
        return T_("app", S("mean"), l)

    def select(self, e, st, a, info):
        l = e.deref_all(st, a[1])
        self.ob(e, st, "C15/select", e.ent_ge(st, ladd(LEN(l), I(-1))) or nodes.witness_nonempty(e, st, l), "selection gets at least one individual", (l,))
        lo, hi, nan = e.fint(st, e.deref_all(st, a[2]))
        self.ob(e, st, "C15/pressure", lo >= 0 and hi <= 1 and not nan, "the selection pressure lies in [0, 1]", (a[2],))
        o = rank_order(l)
        if o is not None:
            self.ob(e, st, "C17/rank-order", o, "selection gets its candidates in the order of their rank", (l,))
        j = T_("y", info.pp + ("sel",), e.idx, ("u",))
        s = st.copy()
        if not e.add_ge(s, ladd(lsub(LEN(l), j), I(-1))):
            return []
        return [(s2, v) for s2, k, v in e.mod.item(e, s, l, lin_of(j))]

    def meta(self, fn):
        def h(e, st, a, info):
            b = self.p.bodies[fn]
            rt = b.ltys[0]
            if not (rt.tag == "tuple" and len(rt.a[0]) == 2 and all(t.tag == "adt" and t.a[0] in (roots.MP, roots.CP) for t in rt.a[0])):
                return None
            for i in range(b.argc):
                t = E._peel(b.ltys[i + 1])
                if t.tag == "adt" and t.a[0] in (roots.MP, roots.CP):
                    bad = self.param_ok(e, st, e.deref_all(st, a[i]), t.a[0])
                    self.ob(e, st, "C14/params/adapt", not bad, "the parameters that are adapted lie inside their ranges", [y for n, y, iv in bad])
            ins = [whole(e, st, a[i]) for i in range(b.argc) if E._peel(b.ltys[i + 1]).tag == "adt" and E._peel(b.ltys[i + 1]).a[0] in (roots.MP, roots.CP)]
            x = T_("tup", tuple(self.param_sym(e, t.a[0], info.pp + ("meta",)) for t in rt.a[0]))
            for y in x.a[0]:
                st.cells[T_("g", "adapted", whole(e, st, y))] = T_("tup", tuple(ins))
            return [(st, x)]
        return h

    # ---- the population
    def cur(self, e, st):
        """the current population term"""
        v = e.deref_all(st, T_("ref", self.cell, ()))
        return e.deref_all(st, v.a[2][self.sh.pop])

    def popval(self, e, v):
        return v.tag == "fld" and v.a[1] == 0 and v.a[2] == self.sh.val and e.dom.ent(v.a[0])

    def compared(self, st):
        """does the path depend on a comparison with the key of an individual of the population?"""
        for f in st.facts():
            if f[0] in ("pr", "fi", "fo"):
                for t in f[1:]:
                    if isinstance(t, T) and any(x.tag == "kat" or x.tag == "at" for x in subterms(t)):
                        return True
        return False

    def pos(self, e, k, x):
        if k.tag == "kat" and k.a[0] is x:
            return lin_of(k.a[1])
        if k.tag == "V" and k.a[2] and all(f.tag == "fld" and f.a[1] == 0 and f.a[2] == j for j, f in enumerate(k.a[2])):
            bs = set(f.a[0] for f in k.a[2])
            if len(bs) == 1:
                return self.pos(e, bs.pop(), x)
        return None

    def inserted(self, e, st, x, k, v):
        self.log.append((st.copy(), x, k, v))

    def removed(self, e, st, x, pos):
        self.onremove(e, st, x, pos)


def whole(e, st, t):
    """a value with everything behind its references"""
    t = e.deref_all(st, t)
    if t.tag == "V":
        return V(t.a[0], t.a[1], *[whole(e, st, x) for x in t.a[2]])
    return t


def rank_order(l):
    """is a list drawn from the population in rank order?  None when not recognised"""
    if l.tag == "rev":
        r = rank_order(l.a[0])
        return None if r is None else not r
    if l.tag in ("keys", "values"):
        return rank_order(l.a[0])
    if l.tag == "coll" and len(l.a[1]) == 1 and l.a[1][0].tag == "all":
        P, lo, hi, alts = l.a[1][0].a
        ks = set()
        for al in alts:
            for x in al.a[1]:
                for t in subterms(x):
                    if t.tag == "kat":
                        ks |= {k for y, k in lin_of(t.a[1]).a[1] if y is P}
        if len(ks) == 1:
            return ks.pop() > 0
    return None


def same_value(e, st, a, b):
    if a is b:
        return True
    fa = a.a[2] if a.tag == "V" else None
    fb = b.a[2] if b.tag == "V" else None
    n = len(fa or fb or ())
    if not n:
        return False
    g = lambda t, f, j: f[j] if f is not None else e.deref_all(st, fld(t, 0, j))
    return all(same_value(e, st, whole(e, st, g(a, fa, j)), whole(e, st, g(b, fb, j))) for j in range(n))


def setref(e, st, ref, v):
    while True:
        x = e.read(st, ref.a[0], ref.a[1])
        if x.tag != "ref":
            break
        ref = x
    e.write(st, ref.a[0], ref.a[1], v)


class Runs:
    """the methods of the algorithm core, from its initial state and from any later one"""

    def __init__(self, prog, single):
        self.p = prog
        self.sh = Shape(prog)
        self.single = single
        self.obs = []
        self.limits = []
        self.panics = []
        self.steps = 0
        self.pending = None
        self.visited = set()

    def core(self, wit=None):
        c = Core(self.p, self.sh, self.single)
        c.pending = self.pending
        c.wit = wit
        c.log = []
        c.onremove = lambda *a: None
        c.cell = T_("g", "self")
        return c

    def done(self, c, e, what, err=None):
        self.obs += c.obs
        self.steps += e.steps
        self.visited |= set(e.visited)
        for k, n in e.unknown.items():
            self.limits.append((what, "unmodelled: %s" % (k,)))
        if err is not None:
            self.limits.append((what, str(err)[:300]))
        for ev in e.all_events("panic"):
            self.panics.append((what, ev))

    def call(self, c, e, st, fn, extra=(), gen=()):
        """run a method on the state in c.cell: [(state, result)]"""
        return e.run_fn(st, self.sh.m[fn] if fn in self.sh.m else fn, gen, (T_("ref", c.cell, ()),) + tuple(extra), T_("fr", "root", fn))

    # ---- building states
    def initial(self, c, e):
        """the states `new` returns"""
        b = self.p.bodies[self.sh.m["new"]]
        args = []
        self.guess = None
        for i in range(b.argc):
            t = b.ltys[i + 1]
            if t.tag == "adt" and t.a[0] == SPEC:
                args.append(c.spec)
            elif t.tag == "int":
                args.append(c.ss)
            elif t.tag == "adt" and t.a[0] == OPT and t.a[1][0].tag == "adt" and t.a[1][0].a[0] == VAL:
                c.guess = T_("y", "guess", (), (("confv", c.spec),))
                args.append(T_("y", "optguess", (), ()))
                og = len(args) - 1
            elif t.tag == "adt" and t.a[0] == OPT and t.a[1][0].tag == "tuple":
                args.append(T_("y", "override", (), ()))
                ov = len(args) - 1
                ovt = t.a[1][0].a[0]
            else:
                raise Missing("AlgoContext::new takes an argument that was not recognised")
        c.iv = []
        out = []
        st0 = State()
        if not self.single:
            e.add_ge(st0, ladd(c.ss, I(-2)))
        for g in (NONE, SOME(c.guess)):
            for o in (NONE, SOME(T_("tup", tuple(c.param_sym(e, t.a[0], "ov") for t in ovt)))):
                a = list(args)
                a[og], a[ov] = g, o
                for s, r in e.run_fn(st0.copy(), self.sh.m["new"], (), tuple(a), T_("fr", "root", "new")):
                    r = e.deref_all(s, r)
                    if r.tag != "V" or r.a[0] != AC:
                        raise EngineLimit("AlgoContext::new returns " + show(r)[:100])
                    out.append((s, r, c.guess if g is not NONE else c.initval(c.spec)))
        return out

    def reset(self, s, r, c):
        n = s.copy()
        for x in list(n.cells):
            del n.cells[x]
        n.cells[c.cell] = r
        n._k = None
        return n

    # ---- what a returned individual is
    def parts(self, e, s, r):
        r = e.deref_all(s, r)
        if r.tag == "V" and r.a[0] == IC:
            return tuple(e.deref_all(s, x) for x in r.a[2])
        return tuple(e.deref_all(s, fld(r, 0, j)) for j in range(len(self.sh.ic)))

    def origin(self, e, ps):
        """the individual of the population this is (by id or by value)"""
        for j in (self.sh.id, self.sh.val):
            x = ps[j]
            if x.tag == "i" and len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
                x = x.a[1][0][0]
            if x.tag == "fld" and x.a[1] == 0 and x.a[2] == j and e.dom.ent(x.a[0]):
                return x.a[0]
        return None

    def first(self):
        """the first individual of a run"""
        c = self.core()
        e = c.engine()
        self.after = []
        try:
            for s0, r0, want in self.initial(c, e):
                st = self.reset(s0, r0, c)
                for s, r in self.call(c, e, st, "next_individual"):
                    ps = self.parts(e, s, r)
                    c.ob(e, s, "C08/first", ps[self.sh.val] is want, "the first individual is the initial value", (ps[self.sh.val],))
                    c.ob(e, s, "C11/first", ps[self.sh.val] is want, "the first individual is the initial guess, or else the initial value of the specification", (ps[self.sh.val],))
                    d = e.disc_of(s, ps[self.sh.st])
                    if d is None or d not in self.sh.lists:
                        raise EngineLimit("state of a new individual is not known")
                    if self.pending is not None and d != self.pending:
                        raise EngineLimit("new individuals start in differing states")
                    self.pending = d
                    c.ob(e, s, "C08/sampling-first", EQ0(LEN(e.deref_all(s, fld(ps[self.sh.st], d, 0)))), "a new individual has no values yet")
                    self.after.append((s, e.read(s, c.cell, ()), r0))
        except EngineLimit as x:
            self.done(c, e, "first", x)
            return False
        self.done(c, e, "first")
        return self.pending is not None and bool(self.after)

    def general(self, c, e, skip=()):
        """any state after the first individual was handed out: counters, the population and what was
        derived from it are arbitrary"""
        out = []
        seen = set()
        for s, r, r0 in self.after:
            r = e.deref_all(s, r)
            fs = list(r.a[2])
            n = State()
            if not self.single:
                e.add_ge(n, ladd(c.ss, I(-2)))
            for i, (nm, t) in enumerate(self.sh.ac):
                x = e.deref_all(s, fs[i])
                if i == self.sh.pop:
                    fs[i] = T_("y", "population", (), ("pop", "u"))
                elif i in self.loose:
                    fs[i] = e.fresh(t, ("self", i)) if t.tag not in ("int", "bool") else lin_of(T_("y", ("self", i), (), ("u",))) if t.tag == "int" else T_("y", ("self", i), (), ())
                elif t.tag == "int" and i not in self.fixed and isconst(lin_of(e.deref_all(s, r0.a[2][i]))):
                    y = lin_of(T_("y", ("self", i), (), ("u",)))
                    fs[i] = y
                else:
                    fs[i] = x
            v = V(AC, 0, *fs)
            if v in seen:
                continue
            seen.add(v)
            n.cells[c.cell] = v
            out.append((n, v))
        return out

    def ints(self):
        return [i for i, (n, t) in enumerate(self.sh.ac) if t.tag == "int"]

    def stable(self, c, e, s, pre, what):
        """fields outside the population and the counters keep their values"""
        post = e.deref_all(s, e.read(s, c.cell, ()))
        for i, (n, t) in enumerate(self.sh.ac):
            a, b = e.deref_all(s, pre.a[2][i]), e.deref_all(s, post.a[2][i])
            if i == self.sh.pop or a is b or b.tag == "vol":
                continue
            if t.tag == "int" and not isconst(lin_of(a)) and i not in self.fixed:
                continue
            self.unstable.add(i)
        return post

    # ---- later individuals
    def next(self):
        sh = self.sh
        c = self.core()
        e = c.engine()
        cand = None
        try:
            for st, pre in self.general(c, e):
                pop0 = pre.a[2][sh.pop]
                rem = []
                c.onremove = lambda e_, s_, x, pos: rem.append((x, pos))
                for s, r in self.call(c, e, st, "next_individual"):
                    ps = self.parts(e, s, r)
                    post = self.stable(c, e, s, pre, "next")
                    pop1 = e.deref_all(s, post.a[2][sh.pop])
                    state = ps[sh.st]
                    d = e.disc_of(s, state)
                    o = self.origin(e, ps)
                    c.ob(e, s, "C08/awaits", d == self.pending, "an individual that is handed out awaits an evaluation", (state,))
                    if o is not None:
                        key = o.a[1]
                        out = pop1.tag == "y" and pop1.a[0][0] == DEL and pop1.a[0][1] is pop0 and pop1.a[0][2] is key
                        c.ob(e, s, "C05/removed", out, "an individual that is handed out for re-evaluation leaves the population", (pop1,))
                        c.ob(e, s, "C08/same-id", lin_of(ps[sh.id]) is lin_of(fld(o, 0, sh.id)), "a re-evaluated individual keeps its id", (ps[sh.id],))
                        c.ob(e, s, "C08/same-value", ps[sh.val] is fld(o, 0, sh.val), "a re-evaluated individual keeps its parameter set", (ps[sh.val],))
                        old = fld(o, 0, sh.st)
                        od = e.disc_of(s, old)
                        c.ob(e, s, "C08/not-complete", od is not None and od in sh.lists and od != self.pending, "only an individual whose sample is not complete is evaluated again", (old,))
                        if d == self.pending and od is not None and od in sh.lists:
                            c.ob(e, s, "C02/values-kept", e.deref_all(s, fld(state, d, 0)) is e.deref_all(s, fld(old, od, 0)), "a re-evaluated individual keeps the values returned so far", (state,))
                    else:
                        c.ob(e, s, "C02/population-kept", pop1 is pop0, "creating an individual loses none of the population", (pop1,))
                        if d == self.pending:
                            c.ob(e, s, "C08/no-values", EQ0(LEN(e.deref_all(s, fld(state, d, 0)))), "a new individual has no values yet", (state,))
                        idt = lin_of(ps[sh.id])
                        ok = set()
                        for i in self.ints():
                            if i in self.fixed:
                                continue
                            a, b = lin_of(pre.a[2][i]), lin_of(e.deref_all(s, post.a[2][i]))
                            if e.ev(s, GE0(lsub(idt, a))) is True and e.ev(s, GE0(ladd(lsub(b, idt), I(-1)))) is True:
                                ok.add(i)
                        cand = ok if cand is None else cand & ok
                        self.idst = (e, s, ps[sh.id])
                        pr = check_conf(e, s, e.deref_all(s, fld(ps[sh.val], 0, 0)), fld(c.spec, 0, 0))
                        c.ob(e, s, "C01/offspring", not pr, "a new individual conforms to the specification", (ps[sh.val],))
                        self.lineage(c, e, s, ps, pop0)
                    m = ps[sh.meta]
                    for s2, w in e.mod.opt_cases(e, s.copy(), m):
                        if w is None:
                            continue
                        w = e.deref_all(s2, w)
                        for j, adt in e.dom.wrap.items():
                            bad = c.param_ok(e, s2, e.deref_all(s2, fld(w, 0, j)), adt)
                            c.ob(e, s2, "C14/params/individual", not bad, "the adaptive parameters of an individual lie inside their ranges", [y for n, y, iv in bad])
            if cand is not None:
                e_, s_, t_ = self.idst
                c.ob(e_, s_, "C08/id", bool(cand), "every new individual gets an id no earlier individual has", (t_,))
            self.idc = cand or set()
        except EngineLimit as x:
            self.done(c, e, "next", x)
            return
        self.done(c, e, "next")

    def lineage(self, c, e, s, ps, pop0):
        """how a new individual came about: recombined from the population, mutated, with the parameters it records"""
        sh = self.sh
        v = whole(e, s, ps[sh.val])
        mut, cross, adapt = ({k.a[1]: x for k, x in s.cells.items() if k.tag == "g" and k.a[0] == w and len(k.a) > 1} for w in ("mutated", "crossed", "adapted"))
        if not mut:
            return          # mutation was not recognised on this path
        init = c.initval(c.spec)
        plain = lambda x: x in cross or x is init or x is T_("y", "guess", (), (("confv", c.spec),)) or c.popval(e, x)
        chain = []
        while v in mut and len(chain) < 4:
            chain.append(v)
            v = mut[v].a[0][0]
        c.ob(e, s, "C17/mutated", bool(chain) or not plain(v), "an offspring is handed out mutated", (v,))
        if not chain:
            return
        if v not in cross and plain(v):
            empty = e.ev(s, EQ0(LEN(pop0))) is True or not e.add_ge(s.copy(), ladd(LEN(pop0), I(-1)))
            c.ob(e, s, "C17/recombined", empty, "an offspring is recombined from the population whenever there is one", (v,))
        elif v in cross:
            c.ob(e, s, "C17/recombined", True, "an offspring is recombined from the population whenever there is one")
        # the parameters used are the ones recorded
        for s2, w in e.mod.opt_cases(e, s.copy(), ps[sh.meta]):
            if w is None:
                continue
            w = e.deref_all(s2, w)
            for j, adt in e.dom.wrap.items():
                q = whole(e, s2, fld(w, 0, j))
                used = mut[chain[0]].a[0][1] if adt == roots.MP else cross.get(v)
                if used is not None:
                    c.ob(e, s2, "C17/recorded", same_value(e, s2, used, q), "the adaptive parameters recorded with an individual are the ones it was created with", (used, q))
                    c.ob(e, s2, "C17/meta-" + self.pedigree(c, e, s2, used, adapt), True, "where adaptive parameters come from")

    def pedigree(self, c, e, st, q, adapt):
        ind = lambda t: any(x.tag == "at" and e.dom.ispop(x.a[0]) for x in subterms(t))
        if q in adapt:
            ins = adapt[q].a[0]
            return "adapted" if ins and all(ind(x) for x in ins) else "explored"
        if any(y.a[0] == "ov" or isinstance(y.a[0], tuple) and "ov" in y.a[0] for y in syms(q)):
            return "given"
        return "inherited" if ind(q) else "other"

    # ---- results
    def process(self):
        sh = self.sh
        c = self.core()
        e = c.engine()
        b = self.p.bodies[sh.m["process_individual_eval"]]
        try:
            for st, pre in self.general(c, e):
                pop0 = pre.a[2][sh.pop]
                idt = lin_of(T_("y", "id", (), ("u",)))
                val = T_("y", "value", (), (("confv", c.spec),))
                meta = T_("y", "metaused", (), ())
                vals = COLL("vec", (), I(0)) if self.single else T_("y", "values", (), ())
                if not self.single:
                    e.add_ge(st, ladd(lsub(c.ss, LEN(vals)), I(-1)))
                fs = [None] * len(sh.ic)
                for j, (n, t) in enumerate(sh.ic):
                    fs[j] = T_("y", ("ind", j), (), ())
                fs[sh.id], fs[sh.val], fs[sh.meta], fs[sh.st] = idt, val, meta, V(sh.state, self.pending, vals)
                ind = V(IC, 0, *fs)
                for obj in (NONE, SOME(c.v)):
                    s0 = st.copy()
                    s0.cells[GH] = V("pop:ghost", 0)
                    c.log = []

                    def onremove(e_, s_, x, pos):
                        last = e_.ev(s_, EQ0(ladd(lsub(LEN(x), lin_of(pos)), I(-1))))
                        c.ob(e_, s_, "C02/evicts-worst", last is True, "only the worst individual is evicted", (pos,))
                        c.ob(e_, s_, "C02/keeps-one", e_.ent_ge(s_, ladd(LEN(x), I(-2))), "the last individual is never evicted", (x,), (UNK,) if nodes.counted(s_) else ())
                    c.onremove = onremove
                    extra = []
                    for i in range(1, b.argc):
                        t = b.ltys[i + 1]
                        if t.tag == "adt" and t.a[0] == IC:
                            extra.append(ind)
                        elif t.tag == "adt" and t.a[0] == OPT:
                            extra.append(obj)
                        else:
                            raise EngineLimit("process_individual_eval takes an argument that was not recognised")
                    for s, r in self.call(c, e, s0, "process_individual_eval", extra):
                        post = self.stable(c, e, s, pre, "process")
                        pop1 = e.deref_all(s, post.a[2][sh.pop])
                        for i in self.ints():
                            if i not in self.fixed:
                                c.ob(e, s, "C08/counter", i not in self.idc or e.ev(s, GE0(lsub(lin_of(e.deref_all(s, post.a[2][i])), lin_of(pre.a[2][i])))) is True, "ids are never handed out again", (post.a[2][i],))
                        if obj is NONE:
                            c.ob(e, s, "C02/rejected", pop1 is pop0, "a rejected evaluation changes nothing in the population", (pop1,))
                            c.ob(e, s, "C02/rejected-insert", not c.log, "a rejected individual does not enter the population")
                        else:
                            c.ob(e, s, "C02/nonempty", e.ent_ge(s, ladd(LEN(pop1), I(-1))), "after an accepted evaluation the population is not empty", (pop1,), (UNK,) if nodes.counted(s) else ())
                            c.ob(e, s, "C02/inserted", s.cells[GH] is V("pop:ghost", 1), "an accepted evaluation enters the population", (pop1,), (UNK,) if c.compared(s) else ())
                    if obj is not NONE:
                        s = s0
                        for s, x, k, v in c.log:
                            v = e.deref_all(s, v)
                            ps = self.parts(e, s, v)
                            k = e.deref_all(s, k)
                            kid, kobj = lin_of(e.deref_all(s, fld(k, 0, sh.kid))), e.deref_all(s, fld(k, 0, sh.kobj))
                            c.ob(e, s, "C02/key-id", kid is idt, "the population ranks an individual under its own id", (kid,))
                            c.ob(e, s, "C08/entry-id", lin_of(ps[sh.id]) is idt, "an individual keeps its id", (ps[sh.id],))
                            for q in ("C02", "C08"):
                                c.ob(e, s, q + "/entry-value", ps[sh.val] is val, "an individual keeps its parameter set", (ps[sh.val],))
                            c.ob(e, s, "C14/entry-meta", ps[sh.meta] is meta, "an individual keeps its adaptive parameters", (ps[sh.meta],))
                            self.newstate(c, e, s, vals, ps[sh.st], kobj)
        except EngineLimit as x:
            self.done(c, e, "process", x)
            return
        self.done(c, e, "process")

    def newstate(self, c, e, s, vals, state, kobj):
        sh = self.sh
        d = e.disc_of(s, state)
        full = e.ev(s, EQ0(lsub(ladd(LEN(vals), I(1)), c.ss)))
        if full is None:
            g, b = e.split(s.copy(), EQ0(lsub(ladd(LEN(vals), I(1)), c.ss)))
            for x in g + b:
                if e.feasible(x):
                    self.newstate(c, e, x, vals, state, kobj)
            return
        if full:
            for q in ("C02", "C08"):
                c.ob(e, s, q + "/final", d == sh.final, "an individual is complete once it was evaluated sample-size times", (state,))
            if d == sh.final:
                m = e.deref_all(s, fld(state, d, 0))
                ok = self.ismean(c, e, s, m, vals)
                c.ob(e, s, "C02/mean", ok is True, "the final objective value is the mean of exactly the values returned", (m,), (UNK,) if ok is None else ())
                c.ob(e, s, "C02/key-final", kobj is m, "a complete individual is ranked by its final value", (kobj, m))
        else:
            for q in ("C02", "C08"):
                c.ob(e, s, q + "/not-final", d in sh.lists and d != self.pending, "an individual is not complete before it was evaluated sample-size times", (state,))
            if d in sh.lists:
                l = e.deref_all(s, fld(state, d, 0))
                c.ob(e, s, "C02/values", self.isvals(c, e, s, l, vals), "the values returned so far are kept and the new one is added", (l,))

    def isvals(self, c, e, s, l, vals):
        """l is vals with the returned value added (once, anywhere)"""
        if l.tag != "coll":
            return False
        segs = list(l.a[1])
        ones = [x for x in segs if x.tag == "one"]
        rest = [x for x in segs if x.tag != "one"]
        if len(ones) != 1 or e.deref_all(s, ones[0].a[1]) is not c.v:
            return False
        if vals.tag == "coll":
            return not rest
        return len(rest) == 1 and rest[0].tag == "base" and rest[0].a[0] is vals

    def ismean(self, c, e, s, m, vals):
        if self.single and m is c.v:
            return True
        if m.tag == "app" and m.a[0] is S("mean"):
            return self.isvals(c, e, s, e.deref_all(s, m.a[1]), vals)
        if self.single:
            return False
        if m is c.v or m.tag in ("fld", "at", "fc"):
            return False
        return None

    # ---- the report
    def best(self):
        sh = self.sh
        w = T_("y", "w", (), ("u",))
        for wit in (w, None):
            c = self.core(lin_of(w) if wit is not None else None)
            e = c.engine()
            try:
                for st, pre in self.general(c, e):
                    pop0 = pre.a[2][sh.pop]
                    if wit is not None:
                        e.add_ge(st, ladd(lsub(LEN(pop0), lin_of(w)), I(-1)))
                        ent = T_("at", pop0, T_("kat", pop0, lin_of(w)))
                        st.disc[fld(ent, 0, sh.st)] = sh.final
                    for s, r in self.call(c, e, st, "best_seen_final"):
                        for s2, pv in e.mod.opt_cases(e, s.copy(), e.deref_all(s, r)):
                            if pv is None:
                                if wit is not None:
                                    c.ob(e, s2, "C02/reported", False, "an individual with a complete sample is reported when there is one", (r,))
                                continue
                            pv = e.deref_all(s2, pv)
                            a, b = e.deref_all(s2, fld(pv, 0, 0)), e.deref_all(s2, fld(pv, 0, 1))
                            if pv.tag == "tup":
                                a, b = (e.deref_all(s2, x) for x in pv.a[0])
                            if not c.popval(e, b):
                                c.ob(e, s2, "C02/reported-value", False, "the reported parameter set is that of an individual in the population", (b,))
                                continue
                            ent = b.a[0]
                            c.ob(e, s2, "C02/reported-final", e.disc_of(s2, fld(ent, 0, sh.st)) == sh.final, "only an individual with a complete sample is reported", (b,))
                            okv = a is fld(fld(ent, 0, sh.st), sh.final, 0) or a is fld(ent.a[1], 0, sh.kobj)
                            c.ob(e, s2, "C02/reported-objective", okv, "the reported objective value is that of the reported parameter set", (a, b))
                            p = lin_of(ent.a[1].a[1]) if ent.a[1].tag == "kat" else None
                            if wit is not None:
                                c.ob(e, s2, "C02/reported-best", p is not None and e.ent_ge(s2, lsub(lin_of(w), p)), "no complete individual is ranked before the reported one", (b,))
            except EngineLimit as x:
                self.done(c, e, "best", x)
                continue
            self.done(c, e, "best")

    def run(self):
        self.loose = set()
        self.fixed = set()
        self.idc = set()
        if not self.first():
            return self
        # the fields that hold the sample size
        g = self
        if self.single:
            g = Runs(self.p, False)
            g.loose, g.fixed, g.idc = set(), set(), set()
            if not g.first():
                self.limits += g.limits
                return self
        for s, r, r0 in g.after[:1]:
            for i in self.ints():
                if not isconst(lin_of(r0.a[2][i])) and lin_of(r0.a[2][i]) is lin_of(r.a[2][i]):
                    self.fixed.add(i)
        for rnd in range(3):
            keep = (list(self.obs), list(self.limits), list(self.panics))
            self.unstable = set()
            self.next()
            self.process()
            if not self.unstable - self.loose:
                break
            self.loose |= self.unstable
            if rnd < 2:
                self.obs, self.limits, self.panics = keep
        self.best()
        return self


UNK = T_("y", "unknown", (), (("unk", "not recognised"),))
