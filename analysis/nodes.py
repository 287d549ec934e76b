"""Abstract domain for specification and value trees: which value terms conform to which
specification terms, and the facts that follow (discriminants, bounds, key sets, sizes)."""
import math
from terms import *
from terms import T_, T
import engine as E
from engine import (NullDomain, V, OPT, NONE, LEN, FMAX, INF, EngineLimit, EQ0, GE0, NOT)

SN = "cambrian::spec::Node"
VN = "cambrian::value::Node"
SPEC = "cambrian::spec::Spec"
VAL = "cambrian::value::Value"
NAMES = ("Real", "Int", "Bool", "Sub", "Array", "AnonMap", "Variant", "Enum", "Optional", "Const")
I64 = (-2 ** 63, 2 ** 63 - 1)
EMPTYF = ()


class NodeDomain(NullDomain):
    def __init__(self, prog):
        self.p = prog
        for a in (SN, VN):
            if a not in prog.adts:
                raise EngineLimit("type %s not found" % a)
            if set(v["name"] for v in prog.adts[a]["variants"]) != set(NAMES):
                raise EngineLimit("variants of %s changed" % a)
        self.ix = {n: prog.vidx(SN, n) for n in NAMES}
        if any(prog.vidx(VN, n) != i for n, i in self.ix.items()):
            raise EngineLimit("variant order of the two node types differs")
        self.f = {}
        for n in NAMES:
            for j, (fname, _) in enumerate(prog.adts[SN]["variants"][self.ix[n]]["fields"]):
                self.f[(n, fname)] = j
        need = [("Real", "init"), ("Real", "scale"), ("Real", "min"), ("Real", "max"), ("Int", "init"), ("Int", "scale"), ("Int", "min"), ("Int", "max"),
                ("Bool", "init"), ("Sub", "map"), ("Array", "value_type"), ("Array", "size"), ("AnonMap", "value_type"), ("AnonMap", "init_size"),
                ("AnonMap", "min_size"), ("AnonMap", "max_size"), ("Variant", "map"), ("Variant", "init"), ("Enum", "values"), ("Enum", "init"),
                ("Optional", "value_type"), ("Optional", "init_present")]
        for k in need:
            if k not in self.f:
                raise EngineLimit("field %s.%s not found" % k)
        self._conf = {}
        self.wf = {}
        self.unit01 = set()      # float terms known to lie in [0,1]
        self.pos = set()
        self.fintab = {}
        self.extra_lin = {}
        self.wits = {}

    # ---- structure --------------------------------------------------------------------------------
    def sf(self, s, n, f):
        """field f of specification node s (variant n)"""
        return fld(s, self.ix[n], self.f[(n, f)])

    def conf(self, t):
        """the specification node that value node t conforms to (None: not known)"""
        if t in self._conf:
            return self._conf[t]
        self._conf[t] = None
        r = self._conf1(t)
        self._conf[t] = r
        return r

    def attr(self, t, k):
        if t.tag == "y":
            for a in t.a[2]:
                if isinstance(a, tuple) and a[0] == k:
                    return a[1]
        return None

    def _conf1(self, t):
        if t.tag == "y":
            return self.attr(t, "conf")
        if t.tag == "fld":
            b, v, i = t.a
            if v == 0 and i == 0:
                s = self.attr(b, "confv")
                if s is not None:
                    return fld(s, 0, 0)
                if b.tag == "at":
                    s = self.attr(b.a[0], "confvl")
                    if s is not None:
                        return fld(s, 0, 0)
            c = self.conf(b)
            if c is not None and v == self.ix["Variant"] and i == 1:
                return T_("at", self.sf(c, "Variant", "map"), fld(b, v, 0))
            if v == 1 and i == 0:
                o = self.attr(b, "confo")
                if o is not None:
                    return o
                if b.tag == "fld" and b.a[1] == self.ix["Optional"] and b.a[2] == 0:
                    c = self.conf(b.a[0])
                    if c is not None:
                        return self.sf(c, "Optional", "value_type")
                if b.tag == "at":
                    o = self.attr(b.a[0], "confol")
                    if o is not None:
                        return o
        if t.tag == "at":
            m = t.a[0]
            l = self.attr(m, "confl")
            if l is not None:
                return l
            if m.tag in ("uniq",):
                return self.conf(T_("at", m.a[0], t.a[1]))
            if m.tag == "fld" and m.a[2] == 0:
                c = self.conf(m.a[0])
                if c is not None:
                    if m.a[1] == self.ix["Sub"]:
                        return T_("at", self.sf(c, "Sub", "map"), t.a[1])
                    if m.a[1] == self.ix["Array"]:
                        return self.sf(c, "Array", "value_type")
                    if m.a[1] == self.ix["AnonMap"]:
                        return self.sf(c, "AnonMap", "value_type")
        return None

    def spec_owner(self, t, n, f):
        """if t is field f of a variant-n specification node, that node"""
        if t.tag == "fld" and t.a[1] == self.ix[n] and t.a[2] == self.f[(n, f)] and self.is_spec(t.a[0]):
            return t.a[0]
        return None

    def is_spec(self, t):
        """is t a (well-formed) specification node?"""
        r = self.wf.get(t)
        if r is not None:
            return r
        self.wf[t] = False
        r = False
        if t.tag == "y":
            r = "specnode" in t.a[2]
        elif t.tag == "fld":
            b, v, i = t.a
            if v == 0 and i == 0 and b.tag == "y" and "spec" in b.a[2]:
                r = True
            elif self.is_spec(b):
                r = (v, i) in ((self.ix["Array"], self.f[("Array", "value_type")]), (self.ix["AnonMap"], self.f[("AnonMap", "value_type")]),
                               (self.ix["Optional"], self.f[("Optional", "value_type")]))
        elif t.tag == "at":
            m = t.a[0]
            if m.tag == "y" and "specmap" in m.a[2]:
                r = True
            elif m.tag == "fld":
                r = self.spec_owner(m, "Sub", "map") is not None or self.spec_owner(m, "Variant", "map") is not None
        self.wf[t] = r
        return r

    def is_map(self, c):
        if c.tag == "y":
            return "map" in c.a[2]
        if c.tag != "fld":
            return False
        if self.spec_owner(c, "Sub", "map") is not None or self.spec_owner(c, "Variant", "map") is not None:
            return True
        return c.a[2] == 0 and c.a[1] in (self.ix["Sub"], self.ix["AnonMap"]) and self.conf(c.a[0]) is not None

    def canon(self, t):
        """value nodes share their variant with the specification node they conform to"""
        c = self.conf(t)
        return c if c is not None else t

    # ---- hooks ------------------------------------------------------------------------------------
    def optb(self, st, t):
        """payload of an optional bound when it is known to be present"""
        if self.eng.disc_of(st, t) == 1:
            return fld(t, 1, 0)
        return None

    def lin_facts(self, st, a):
        out = []
        ix = self.ix
        if a.tag == "fld":
            b, v, i = a.a
            # value of an int node
            if v == ix["Int"] and i == 0:
                c = self.conf(b)
                if c is not None:
                    out += self._rng(a)
                    for w, sg in (("min", 1), ("max", -1)):
                        o = self.optb(st, self.sf(c, "Int", w))
                        if o is not None:
                            out.append(lmul(lsub(a, o), sg))
            # spec int init
            s = self.spec_owner(a, "Int", "init")
            if s is not None:
                out += self._rng(a)
                for w, sg in (("min", 1), ("max", -1)):
                    o = self.optb(st, self.sf(s, "Int", w))
                    if o is not None:
                        out.append(lmul(lsub(a, o), sg))
            s = self.spec_owner(a, "AnonMap", "init_size")
            if s is not None:
                out.append(lin_of(a))
                for w, sg in (("min_size", 1), ("max_size", -1)):
                    o = self.optb(st, self.sf(s, "AnonMap", w))
                    if o is not None:
                        out.append(lmul(lsub(a, o), sg))
            s = self.spec_owner(a, "Array", "size")
            if s is not None:
                out.append(ladd(a, I(-2)))
            if v == 1 and i == 0:
                for n, lo, hi in (("Int", "min", "max"), ("AnonMap", "min_size", "max_size")):
                    for w in (lo, hi):
                        s = self.spec_owner(b, n, w)
                        if s is None:
                            continue
                        if n == "Int":
                            out += self._rng(a)
                        else:
                            out.append(ladd(a, I(-1)) if w == hi else lin_of(a))
                        ini = self.sf(s, n, "init" if n == "Int" else "init_size")
                        out.append(lmul(lsub(ini, a), 1 if w == lo else -1))
                        other = self.optb(st, self.sf(s, n, hi if w == lo else lo))
                        if other is not None:
                            mx, mn = (other, a) if w == lo else (a, other)
                            out.append(ladd(lsub(mx, mn), I(-1)))
        elif a.tag == "len":
            c = a.a[0]
            if c.tag == "fld":
                b, v, i = c.a
                s = self.conf(b)
                if s is not None and i == 0:
                    if v == ix["Sub"]:
                        o = T_("len", self.sf(s, "Sub", "map"))
                        out += [lsub(a, o), lsub(o, a)]
                    elif v == ix["Array"]:
                        o = self.sf(s, "Array", "size")
                        self.eng.unsigned.add(o)
                        out += [lsub(a, o), lsub(o, a)]
                    elif v == ix["AnonMap"]:
                        for w, sg in (("min_size", 1), ("max_size", -1)):
                            o = self.optb(st, self.sf(s, "AnonMap", w))
                            if o is not None:
                                out.append(lmul(lsub(a, o), sg))
                if self.spec_owner(c, "Variant", "map") is not None or self.spec_owner(c, "Enum", "values") is not None:
                    out.append(ladd(a, I(-2)))
                if self.spec_owner(c, "Sub", "map") is not None:
                    out.append(ladd(a, I(-1)))
            elif c.tag == "y":
                if "nonempty" in c.a[2]:
                    out.append(ladd(a, I(-1)))
                for x in c.a[2]:
                    if isinstance(x, tuple) and x[0] == "samelen":
                        o = T_("len", x[1])
                        out += [lsub(a, o), lsub(o, a)]
        elif a.tag == "y":
            x = self.extra_lin.get(a)
            if x:
                out += x
        return out

    def _rng(self, a):
        return [lsub(a, I(I64[0])), lsub(I(I64[1]), a)]

    def nonneg(self, t):
        return t.tag in ("kat",) and False

    def bounded(self, st, x):
        """sizes of trees that exist in memory"""
        if x.tag == "fld":
            return False
        return False

    def has_hint(self, st, coll, key):
        ix = self.ix
        if coll.tag == "fld":
            # value map of a sub node has the keys of its specification
            if coll.a[1] == ix["Sub"] and coll.a[2] == 0:
                c = self.conf(coll.a[0])
                if c is not None:
                    return self.eng.ev(st, T_("has", self.sf(c, "Sub", "map"), key))
            s = self.spec_owner(coll, "Variant", "map")
            if s is not None:
                if key is self.sf(s, "Variant", "init"):
                    return True
                if key.tag == "fld" and key.a[1] == ix["Variant"] and key.a[2] == 0 and self.conf(key.a[0]) is s:
                    return True
            s = self.spec_owner(coll, "Enum", "values")
            if s is not None:
                if key is self.sf(s, "Enum", "init"):
                    return True
                if key.tag == "fld" and key.a[1] == ix["Enum"] and key.a[2] == 0 and self.conf(key.a[0]) is s:
                    return True
                if key.tag == "at" and key.a[0] is coll:
                    return True
            s = self.spec_owner(coll, "Sub", "map")
            if s is not None and key.tag == "kat" and key.a[0] is not coll:
                m = key.a[0]
                if m.tag == "fld" and m.a[1] == ix["Sub"] and m.a[2] == 0 and self.conf(m.a[0]) is s:
                    e = self.eng
                    if e.ent_ge(st, lin_of(key.a[1])) and e.ent_ge(st, ladd(lsub(LEN(m), key.a[1]), I(-1))):
                        return True
        return None

    def f_int(self, st, t):
        if t in self.fintab:
            return self.fintab[t]
        if t.tag == "fld":
            b, v, i = t.a
            if v == self.ix["Real"] and i == 0 and self.conf(b) is not None:
                return (-FMAX, FMAX, False)
            if self.is_spec(b):
                if (v, i) in ((self.ix["Real"], self.f[("Real", "scale")]), (self.ix["Int"], self.f[("Int", "scale")])):
                    return (5e-324, FMAX, False)
                if (v, i) == (self.ix["Real"], self.f[("Real", "init")]):
                    return (-FMAX, FMAX, False)
            if v == 1 and i == 0 and b.tag == "fld":
                for w in ("min", "max"):
                    if self.spec_owner(b, "Real", w) is not None:
                        return (-FMAX, FMAX, False)
        return None

    def f_ord(self, st, t):
        """edges t <= b / t < b"""
        if t.tag != "fld":
            return ()
        b, v, i = t.a
        out = []
        if v == self.ix["Real"] and i == 0:
            c = self.conf(b)
            if c is not None:
                o = self.optb(st, self.sf(c, "Real", "max"))
                if o is not None:
                    out.append((o, False))
        s = self.spec_owner(t, "Real", "init")
        if s is not None:
            o = self.optb(st, self.sf(s, "Real", "max"))
            if o is not None:
                out.append((o, False))
        if v == 1 and i == 0:
            s = self.spec_owner(b, "Real", "min")
            if s is not None:
                o = self.optb(st, self.sf(s, "Real", "max"))
                if o is not None:
                    out.append((o, True))
                out.append((self.sf(s, "Real", "init"), False))
                for x in self.reals_of(s):
                    out.append((x, False))
        return out

    def reals_of(self, s):
        """value terms known to conform to real specification s"""
        return [fld(v, self.ix["Real"], 0) for v, c in list(self._conf.items()) if c is s]

    def lub_attrs(self, states, ts):
        """a loop variable that always holds a value conforming to one specification node keeps that property"""
        cs = set(self.conf(t) for t in ts)
        if len(cs) == 1 and None not in cs:
            return [("conf", cs.pop())]
        return []

    def wit_for(self, st, c, sg):
        """witness positions for a comprehension over the value names of an enum (two of them differ)"""
        seqs = set()

        def walk(t, d=0):
            if t.tag == "at" and self.spec_owner(t.a[0], "Enum", "values") is not None:
                seqs.add(t.a[0])
            if d < 12:
                for x in children(t):
                    walk(x, d + 1)
        for al in sg.a[3]:
            for f in al.a[0]:
                for t in E.fact_terms(f):
                    walk(t)
            for i in al.a[1]:
                walk(i)
        out = []
        for q in seqs:
            w = self.enum_witness(q)
            a, b = T_("at", q, I(0)), T_("at", q, lin_of(w))
            st.pr[T_("veq", a, b) if a.id < b.id else T_("veq", b, a)] = False
            out.append(lin_of(w))
        return out

    def enum_witness(self, seq):
        """index of an element different from element 0 (exists by well-formedness)"""
        w = self.wits.get(seq)
        if w is None:
            w = T_("y", ("wit", seq), (), ("u",))
            self.wits[seq] = w
            self.extra_lin[w] = [ladd(lsub(T_("len", seq), w), I(-1))]
        return w


# ---- conformance of constructed values ---------------------------------------------------------

def tainted(t, st=None):
    """does the term depend on something the engine does not model?"""
    return any(isinstance(a, tuple) and a and a[0] == "unk" for y in syms(t) if len(y.a) > 2 for a in y.a[2])


def counted(st):
    """does the state depend on a loop's counter, whose relation to the elements is not tracked?"""
    found = []

    def look(t):
        if t.tag == "y" and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == "phi":
            found.append(t)
    walk_terms(list(st.facts()), look)
    return bool(found)


class Problem:
    def __init__(self, what, term, st):
        self.what = what
        self.term = term
        self.st = st
        self.taint = (tainted(term) if isinstance(term, T) else False) or ("non-empty" in what and counted(st))

    def __repr__(self):
        return "%s: %s%s" % (self.what, show(self.term)[:300], " (tainted)" if self.taint else "")


def elements(eng, st, c, tag=0):
    """generic elements of a collection: [(state, key, value)] covering every entry"""
    c = eng.deref_all(st, c)
    if c.tag in ("keys", "values", "shuf", "rev", "uniq", "sub") or c.tag != "coll":
        j = T_("y", ("el", c, tag), eng.idx, ("u",))
        s = st.copy()
        if not eng.add_ge(s, lin_of(j)) or not eng.add_ge(s, ladd(lsub(LEN(c), j), I(-1))):
            return []
        return eng.mod.item(eng, s, c, lin_of(j))
    out = []
    for n, sg in enumerate(c.a[1]):
        if sg.tag == "one":
            out.append((st.copy(), sg.a[0], sg.a[1]))
        elif sg.tag == "base":
            for s, k, v in elements(eng, st, sg.a[0], (tag, n)):
                ok = [s]
                for x in c.a[1][n + 1:]:
                    if x.tag == "del":
                        ok = [z for q in ok for z in eng.assume(q, eng.VEQ(q, k, x.a[0]), False)]
                out += [(q, k, v) for q in ok]
        elif sg.tag == "all":
            P, lo, hi, alts = sg.a
            j = T_("y", ("el", c, (tag, n)), eng.idx, ("u",))
            for al in alts:
                s = st.copy()
                if not (eng.add_ge(s, lin_of(j)) and eng.add_ge(s, lsub(j, lo)) and eng.add_ge(s, ladd(lsub(hi, j), I(-1)))):
                    continue
                m = {P: lin_of(j)}
                s = eng.mod.apply_facts(eng, s, al.a[0], m)
                if s is None:
                    continue
                for i, it in enumerate(al.a[1]):
                    it = tsub(it, m, {})
                    if it.tag == "one":
                        out.append((s.copy(), it.a[0], it.a[1]))
                    elif it.tag == "base":
                        out += elements(eng, s, it.a[0], (tag, n, i))
                    elif it.tag == "del":
                        pass
                    else:
                        out += elements(eng, s, COLL1(it), (tag, n, i))
    return out


def witness_nonempty(eng, st, c):
    """a comprehension whose filter is satisfied by some position"""
    c = eng.deref_all(st, c)
    if c.tag in ("shuf", "rev", "uniq"):
        return witness_nonempty(eng, st, c.a[0])
    if c.tag != "coll":
        return False
    for sg in c.a[1]:
        if sg.tag != "all":
            continue
        P, lo, hi, alts = sg.a
        if any(x.tag != "one" for al in alts for x in al.a[1]):
            continue
        # at some position every alternative that contributes nothing is contradicted
        empty = [al for al in alts if not al.a[1]]
        allf = [f for al in alts for f in al.a[0]] + [x.a[1] for al in alts for x in al.a[1]]
        seqs = set()        # sequences the comprehension walks over
        walk_terms(allf, lambda t: seqs.add(t.a[0]) if t.tag == "at" and lin_of(t.a[1]) is lin_of(P) else None)
        cand = [lo]
        # positions of the same sequences that the state or the filter talks about

        def add(t):
            if t.tag == "at" and t.a[0] in seqs and P not in syms(t.a[1]) and lin_of(t.a[1]) not in cand:
                cand.append(lin_of(t.a[1]))
        walk_terms(list(st.facts()), add)
        walk_terms(allf, add)
        for w in cand[:12]:
            m = {P: w}
            if not (eng.ent_ge(st, lsub(w, lo)) and eng.ent_ge(st, ladd(lsub(hi, w), I(-1)))):
                continue
            if all(eng.mod.apply_facts(eng, st.copy(), al.a[0], m) is None for al in empty):
                return True
        # the key of a filtered lookup was drawn from the union of the keys of the same maps
        ok = bool(empty)
        for al in empty:
            has = [f for f in al.a[0] if f[0] == "pr" and f[2] is False and f[1].tag == "has" and P in syms(f[1].a[0])]
            if not any(union_member(eng, st, f[1].a[1], f[1].a[0], P, lo, hi) for f in has):
                ok = False
        if ok:
            return True
    return False


def eng_holds(eng, st, f):
    import loops
    return loops.holds(eng, st, f)


def walk_terms(roots, f):
    seen = set()
    todo = []
    for r in roots:
        if isinstance(r, T):
            todo.append(r)
        else:
            todo += list(E.fact_terms(r))
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        f(t)
        todo += list(children(t))


def union_member(eng, st, k, m, P, lo, hi):
    """is k drawn from the union of the key sets of the maps m(P), lo <= P < hi?"""
    k = eng.mod.unlin(k) if k.tag == "i" else k
    if k.tag != "at":
        return False
    c = k.a[0]
    for _ in range(6):
        if c.tag in ("uniq", "shuf", "rev"):
            c = c.a[0]
        elif c.tag == "coll" and len(c.a[1]) == 1 and c.a[1][0].tag == "all":
            Q, l2, h2, alts = c.a[1][0].a
            items = set(al.a[1] for al in alts)
            if len(items) == 1 and len(list(items)[0]) == 1:
                it = list(items)[0][0]
                if it.tag == "base" and it.a[0].tag == "keys" and l2 is lo and h2 is hi:
                    return tsub(it.a[0].a[0], {Q: lin_of(P)}) is m
            return False
        else:
            return False
    return False


def COLL1(seg):
    return E.COLL("vec", (seg,), I(0))


def same_term(eng, st, a, b):
    if a is b:
        return True
    if a.tag == b.tag == "at" and a.a[0] is b.a[0]:
        return eng.keq(st, a.a[1], b.a[1]) is True
    if a.tag == b.tag == "at" and same_term(eng, st, a.a[0], b.a[0]):
        return eng.keq(st, a.a[1], b.a[1]) is True
    if a.tag == b.tag == "fld" and a.a[1:] == b.a[1:]:
        return same_term(eng, st, a.a[0], b.a[0])
    return eng.keq(st, a, b) is True


def check_conf(eng, st, t, s, depth=0):
    """problems that keep value term t from conforming to specification node s"""
    d = eng.dom
    t = eng.deref_all(st, t)
    c = d.conf(t)
    if c is not None:
        if same_term(eng, st, c, s):
            return []
        return [Problem("value of another specification node", T_("tup", (t, s)), st)]
    if t.tag == "V" and t.a[0] == VN:
        v = t.a[1]
        n = NAMES[[d.ix[x] for x in NAMES].index(v)]
        ds = eng.disc_of(st, s)
        if ds != v:
            if ds is None and v not in eng.excl(st, s):
                return [Problem("kind %s not known to match the specification" % n, T_("tup", (t, s)), st)]
            return [Problem("kind %s differs from the specification" % n, T_("tup", (t, s)), st)]
        out = []
        if n in ("Real", "Int"):
            x = t.a[2][0]
            if n == "Real":
                if eng.ev(st, T_("fin", x)) is not True:
                    out.append(Problem("real value not known to be finite", x, st))
            for w in ("min", "max"):
                for s2, p in eng.mod.opt_cases(eng, st.copy(), d.sf(s, n, w)):
                    if p is None:
                        continue
                    if n == "Real":
                        ok = eng.f_le(s2, p, x) if w == "min" else eng.f_le(s2, x, p)
                    else:
                        ok = eng.ent_ge(s2, lsub(x, p) if w == "min" else lsub(p, x))
                    if not ok:
                        out.append(Problem("%s value not known to respect %s" % (n.lower(), w), x, s2))
        elif n == "Sub":
            m = t.a[2][0]
            sm = d.sf(s, "Sub", "map")
            if eng.ev(st, EQ0(lsub(LEN(m), T_("len", sm)))) is not True:
                out.append(Problem("sub has a different number of keys than its specification", m, st))
            for s2, k, v2 in elements(eng, st, m):
                if eng.ev(s2, T_("has", sm, k)) is not True:
                    out.append(Problem("sub key not known to be specified", k, s2))
                else:
                    out += check_conf(eng, s2, v2, T_("at", sm, k), depth + 1)
        elif n in ("Array", "AnonMap"):
            m = t.a[2][0]
            ln = LEN(m)
            if n == "Array":
                if eng.ev(st, EQ0(lsub(ln, d.sf(s, "Array", "size")))) is not True:
                    out.append(Problem("array length differs from the specified size", T_("tup", (lin_of(ln), m)), st))
            else:
                for w in ("min_size", "max_size"):
                    for s2, p in eng.mod.opt_cases(eng, st.copy(), d.sf(s, "AnonMap", w)):
                        if p is not None and not eng.ent_ge(s2, lsub(ln, p) if w == "min_size" else lsub(p, ln)):
                            out.append(Problem("anon map size not known to respect %s" % w, T_("tup", (lin_of(ln), m)), s2))
            vt = d.sf(s, n, "value_type")
            for s2, k, v2 in elements(eng, st, m):
                out += check_conf(eng, s2, v2, vt, depth + 1)
        elif n == "Variant":
            nm, pv = t.a[2]
            sm = d.sf(s, "Variant", "map")
            if eng.ev(st, T_("has", sm, eng.deref_all(st, nm))) is not True:
                out.append(Problem("variant name not known to be specified", nm, st))
            else:
                out += check_conf(eng, st, pv, T_("at", sm, eng.deref_all(st, nm)), depth + 1)
        elif n == "Enum":
            nm = eng.deref_all(st, t.a[2][0])
            if eng.ev(st, T_("has", d.sf(s, "Enum", "values"), nm)) is not True:
                out.append(Problem("enum value not known to be specified", nm, st))
        elif n == "Optional":
            for s2, p in eng.mod.opt_cases(eng, st.copy(), t.a[2][0]):
                if p is not None:
                    out += check_conf(eng, s2, p, d.sf(s, "Optional", "value_type"), depth + 1)
        return out
    return [Problem("value of unknown origin", t, st)]
