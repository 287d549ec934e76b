"""Analysis of the reader of specification documents: every kind of node of an arbitrary YAML document, the type
definitions in scope as a log of what was defined (later entries shadow earlier ones), recursion by contract."""
from terms import *
from terms import T_, T
import engine as E
import models as M
import roots
import prog as P
from engine import *
from nodes import SN, SPEC, NAMES, NodeDomain, same_term, check_conf, tainted, elements, Problem

YAML = "serde_yaml::value::Value"
KINDS = {"real": "Real", "int": "Int", "bool": "Bool", "sub": "Sub", "array": "Array", "anon map": "AnonMap", "variant": "Variant", "enum": "Enum", "optional": "Optional", "const": "Const"}
ALLOWED = {"real": ("type", "min", "max", "scale", "init"), "int": ("type", "min", "max", "scale", "init"), "bool": ("type", "init"), "array": ("type", "size", "valueType"),
           "anon map": ("type", "initSize", "minSize", "maxSize", "valueType"), "enum": ("type", "init", "values"), "optional": ("type", "initPresent", "valueType"), "const": ("type",)}
DEFKEY = "typeDef "


def unbox(t):
    t = E._peel(t)
    while t.tag == "adt" and t.a[0] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc"):
        t = E._peel(t.a[1][0])
    return t


def is_adt(t, a):
    t = unbox(t)
    return t.tag == "adt" and t.a[0] == a


def is_defs(t):
    """a map from names to specification nodes"""
    t = E._peel(t)
    return t.tag == "adt" and t.a[0].split("::")[-1] in ("HashMap", "BTreeMap") and len(t.a[1]) > 1 and is_adt(t.a[1][1], SN)


def attr(t, k):
    if t.tag == "y" and len(t.a) > 2:
        for x in t.a[2]:
            if isinstance(x, tuple) and x[0] == k:
                return x[1]
    return None


def is_yaml(t):
    if t.tag == "y":
        return "yaml" in t.a[2]
    if t.tag == "at":
        return t.a[0].tag == "fld" and is_yaml(t.a[0].a[0])
    if t.tag == "kat":
        return t.a[0].tag == "fld" and is_yaml(t.a[0].a[0])
    return False


def key_name(t):
    """(mapping, position) when t is the text of a key of a mapping of the document: different keys have different texts"""
    if t.tag == "fld" and t.a[2] == 0 and t.a[0].tag == "kat" and is_yaml(t.a[0]):
        return t.a[0]
    return None


M.INJ_FLD.append(key_name)


def BUILT(y, at, mk=None):
    return T_("y", ("built", y), (), ("specnode", ("built", y)))


class YamlDomain(NodeDomain):
    def is_map(self, c):
        if c.tag == "fld" and c.a[2] == 0 and is_yaml(c.a[0]) and c.a[1] == self.p.vidx(YAML, "Mapping"):
            return True
        return super().is_map(c)


class Reader(roots.Analysis):
    def __init__(self, prog, mode="gen"):
        super().__init__(prog, mode)
        self.calls = []      # re-entries: (run, engine, event with the document and the definitions in scope)
        self.reader = None
        self.V = {n: prog.vidx(YAML, n) for n in ("Null", "Bool", "Number", "String", "Sequence", "Mapping", "Tagged")}

    # ---- engine --------------------------------------------------------------------------------------
    def engine(self):
        e = super().engine()
        e.dom = YamlDomain(self.p)
        e.dom.eng = e
        o = e.overrides
        for nm, v in (("str", "String"), ("bool", "Bool"), ("f64", "Number"), ("i64", "Number"), ("u64", "Number")):
            o["Value::as_" + nm] = self.as_(nm, v)
        o["Mapping::get"] = self.get
        o["Mapping::contains_key"] = self.contains
        o["HashMap::insert"] = o["BTreeMap::insert"] = self.insert
        o["HashMap::get"] = o["BTreeMap::get"] = o["HashMap::contains_key"] = o["BTreeMap::contains_key"] = self.lookup
        for nm in ("remove", "remove_entry", "clear", "retain", "extend", "entry", "get_mut", "drain"):
            o["HashMap::" + nm] = o["BTreeMap::" + nm] = self.other
        o["serde_yaml::to_string"] = lambda e, st, a, info: [(st, OK(T_("app", S("yamlstr"), e.deref_all(st, a[0]))))]
        return e

    def as_(self, nm, var):
        def h(e, st, a, info):
            if not (info and info.atys and is_adt(info.atys[0], YAML)):
                return None
            x = e.deref_all(st, a[0])
            e.adt_hint[x] = YAML
            d = e.disc_of(st, x)
            f = fld(x, self.V[var], 0)
            if d == self.V[var]:
                g, b = [st], []
            elif d is not None and d != self.V["Tagged"]:
                g, b = [], [st]
            else:
                # (the scalar itself, or inside a tag)
                g, b = e.split(st, T_("pred", S("yis"), S(var), x))
            out = [(s, NONE) for s in b]
            for s in g:
                out += M.num_as(e, s, f, nm) if var == "Number" else [(s, SOME(f))]
            return out
        return h

    def mkey(self, e, st, k, info):
        """key of a lookup in a mapping of the document: its text"""
        k = e.deref_all(st, k)
        if k.tag == "V" and k.a[0] == YAML:
            if k.a[1] != self.V["String"]:
                raise EngineLimit("lookup of a key that is no text")
            k = e.deref_all(st, k.a[2][0])
        return k

    def get(self, e, st, a, info):
        m = e.deref_all(st, a[0])
        k = self.mkey(e, st, a[1], info)
        sub = getattr(e, "given", {})
        return [(s, NONE if v is None else SOME(sub.get(v, v))) for s, v in M.lookup(e, st, m, k)]

    def contains(self, e, st, a, info):
        return [(st, T_("has", e.deref_all(st, a[0]), self.mkey(e, st, a[1], info)))]

    def defs_of(self, e, st, c):
        c = e.deref_all(st, c)
        if attr(c, "scope0") is not None:
            return c
        if c.tag == "coll" and c.a[0] == "vec" and c.a[1] and c.a[1][0].tag == "base" and attr(c.a[1][0].a[0], "scope0") is not None:
            return c
        return None

    def insert(self, e, st, a, info):
        d = self.defs_of(e, st, a[0])
        if d is None:
            return None
        k, v = e.deref_all(st, a[1]), e.deref_all(st, a[2])
        c = d if d.tag == "coll" else COLL("vec", (M.BASE(d),), LEN(d))
        M.set_ref(e, st, a[0], COLL("vec", tuple(c.a[1]) + (ONE(NOKEY, T_("tup", (k, v))),), ladd(c.a[2], I(1)), c.a[3]))
        return [(st, e.fresh(info.dty, info.pp))]

    def other(self, e, st, a, info):
        """any other change of the definitions in scope: an entry of the log that defines nothing"""
        d = self.defs_of(e, st, a[0])
        if d is None:
            return None
        c = d if d.tag == "coll" else COLL("vec", (M.BASE(d),), LEN(d))
        M.set_ref(e, st, a[0], COLL("vec", tuple(c.a[1]) + (ONE(NOKEY, S(info.key.split("::")[-1])),), ladd(c.a[2], I(1)), c.a[3]))
        return [(st, e.fresh(info.dty, info.pp))]

    def lookup(self, e, st, a, info):
        d = self.defs_of(e, st, a[0])
        if d is None or d.tag != "coll":
            return None
        if len(d.a[1]) > 1:
            raise EngineLimit("lookup in a scope while it is being built")
        b = d.a[1][0].a[0]
        k = e.deref_all(st, a[1])
        if info.key.endswith("contains_key"):
            return [(st, T_("has", b, k))]
        return [(s, NONE if v is None else SOME(v)) for s, v in M.lookup(e, st, b, k)]

    # ---- recursion -----------------------------------------------------------------------------------
    def doc_arg(self, fn):
        b = self.p.bodies[fn]
        k = [i for i in range(b.argc) if is_adt(b.ltys[i + 1], YAML)]
        r = b.ltys[0]
        if len(k) == 1 and r.tag == "adt" and r.a[0] == RES and is_adt(r.a[1][0], SN):
            return k[0]
        return None

    def defs_arg(self, fn):
        b = self.p.bodies[fn]
        k = [i for i in range(b.argc) if is_defs(b.ltys[i + 1])]
        return k[0] if len(k) == 1 else None

    def contract(self, e, st, fn, args, info, early=False):
        yx = self.doc_arg(fn)
        if yx is None:
            if early:
                return None
            raise EngineLimit("recursion of " + fn)
        if early and not e.shallow:
            return None
        dx = self.defs_arg(fn)
        if dx is None:
            raise EngineLimit("no scope argument in " + fn)
        args = [e.deref_all(st, a) for a in args]
        self.reader = self.reader or fn
        if fn != self.reader:
            raise EngineLimit("second reading function " + fn)
        y, d = args[yx], args[dx]
        e.event("reenter", st.copy(), (y, d))
        if not is_yaml(y) and not e.shallow:
            raise EngineLimit("recursion on a document of unknown origin: " + show(y)[:80])
        r = self.p.bodies[fn].ltys[0]
        s2 = st.copy()
        return [(s2, ERR(e.fresh(r.a[1][1], info.pp + ("rec", "e")))), (st, OK(BUILT(y, d)))]

    # ---- runs ----------------------------------------------------------------------------------------
    def guard(self, name, e, f):
        e.rootname = name
        self.engines.append((name, e))
        try:
            f()
            for ev in e.all_events("panic"):
                self.panics.append((name, ev))
            for ev in e.all_events("reenter"):
                self.calls.append((name, e, ev))
        except EngineLimit as x:
            self.limits.append((name, str(x), tuple(e.stack)[-3:]))

    def entry(self, fn):
        """from the text to the first call of the reading function: [(state, ok, result)]"""
        out = []
        e = self.engine()
        e.shallow = True
        e.summarise = lambda f: True

        def body():
            st = State()
            for s, r in e.run_fn(st, fn, (), (T_("y", "text", (), ()),), T_("fr", "entry")):
                for s2, ok, x in e.mod.res_cases(e, s, e.deref_all(s, r)):
                    out.append((s2, ok, e.deref_all(s2, x)))
        self.guard("entry", e, body)
        return e, out

    def run(self, name, prep):
        """one run of the reading function on a document prepared by prep(engine, state, document, mapping)"""
        e = self.engine()
        e.shallow = False
        out = []

        def body():
            fn = self.reader
            st = State()
            y = T_("y", "doc", (), ("yaml",))
            e.adt_hint[y] = YAML
            d = T_("y", "defs", (), ("specmap", "map", ("scope0", 1)))
            m = fld(y, self.V["Mapping"], 0)
            if prep(e, st, y, m) is False:
                return
            b = self.p.bodies[fn]
            args = []
            for i in range(b.argc):
                args.append(y if i == self.doc_arg(fn) else COLL("vec", (M.BASE(d),), LEN(d)) if i == self.defs_arg(fn) else e.fresh(b.ltys[i + 1], ("arg", i)))
            for s, r in e.run_fn(st, fn, (), tuple(args), T_("fr", "read")):
                for s2, ok, x in e.mod.res_cases(e, s, e.deref_all(s, r)):
                    out.append((e, s2, y, m, d, ok, e.deref_all(s2, x)))
        self.guard(name, e, body)
        return out

    def typed(self, e, st, y, m, name):
        """the document is a mapping whose type attribute is the text name (None: it has none)"""
        st.disc[y] = self.V["Mapping"]
        h = T_("has", m, S("type"))
        if name is None:
            st.pr[h] = False
            return
        st.pr[h] = True
        t = T_("at", m, S("type"))
        st.disc[t] = self.V["String"]
        e.adt_hint[t] = YAML
        x = fld(t, self.V["String"], 0)
        st.pr[e.VEQ(st, x, S(name))] = True

    def witness(self, e, st, m, text=True):
        """a key at some position of the mapping"""
        w = T_("y", "wit", (), ("u",))
        e.add_ge(st, lin_of(w))
        e.add_ge(st, ladd(lsub(LEN(m), w), I(-1)))
        e.wits = [lin_of(w)]
        k = T_("kat", m, lin_of(w))
        e.adt_hint[k] = YAML
        if text:
            st.disc[k] = self.V["String"]
        return w, k, fld(k, self.V["String"], 0)


# ---- checks --------------------------------------------------------------------------------------------

class Check:
    """what an accepted document must have been turned into"""

    def __init__(self, an, kind):
        self.an = an
        self.kind = kind

    def has(self, e, st, m, n):
        return e.ev(st, T_("has", m, S(n)))

    def scalar(self, e, st, m, n, what):
        x = T_("at", m, S(n))
        f = fld(x, self.an.V["Number" if what in ("f64", "i64", "u64") else "Bool" if what == "bool" else "String"], 0)
        return T_("app", S("num_" + what), f) if what in ("f64", "i64", "u64") else f

    def same(self, e, st, x, y):
        x = e.deref_all(st, x)
        return x is y or M.unlin(x) is y or same_term(e, st, x, y)

    def attr_is(self, e, st, m, n, what, x, name):
        """a mandatory attribute: the field is what the document says"""
        h = self.has(e, st, m, n)
        if h is False:
            return []
        if not self.same(e, st, x, self.scalar(e, st, m, n, what)):
            return [("%s is not the one in the document" % name, x)]
        return []

    def opt_is(self, e, st, m, n, what, x, name):
        out = []
        for s, v in e.mod.opt_cases(e, st.copy(), x):
            h = self.has(e, s, m, n)
            if v is None:
                if h is not False:
                    out.append(("a declared %s is not kept" % name, x))
            elif h is False:
                out.append(("a %s that is not declared" % name, v))
            elif not self.same(e, s, v, self.scalar(e, s, m, n, what)):
                out.append(("%s is not the one in the document" % name, v))
        return out

    def part(self, e, st, m, n, x):
        x = unboxed(e, st, x)
        y = attr(x, "built")
        if y is None or y is not T_("at", m, S(n)):
            return [("the %s is not the one in the document" % n, x)]
        return []

    def bounds(self, e, st, x, k, lo, hi, real):
        sf = e.dom.sf
        out = []
        for s, a in e.mod.opt_cases(e, st.copy(), sf(x, k, lo)):
            if real and a is not None and e.ev(s, T_("fin", e.deref_all(s, a))) is not True:
                out.append(("%s is not known to be finite" % lo, a))
            for s2, b in e.mod.opt_cases(e, s, sf(x, k, hi)):
                if real and b is not None and e.ev(s2, T_("fin", e.deref_all(s2, b))) is not True:
                    out.append(("%s is not known to be finite" % hi, b))
                if a is None or b is None:
                    continue
                ok = e.ev(s2, T_("flt", e.deref_all(s2, a), e.deref_all(s2, b))) is True if real else e.ent_ge(s2, ladd(lsub(b, a), I(-1)))
                if not ok:
                    out.append(("%s is not known to be less than %s" % (lo, hi), T_("tup", (a, b))))
        return out

    def init_conforms(self, e, st, x, k, v):
        return [(p.what.replace("value", "initial value"), p.term) for p in check_conf(e, st, T_("V", "cambrian::value::Node", e.dom.ix[k], (v,)), x)]

    def scale(self, e, st, m, x, k):
        sc = e.deref_all(st, e.dom.sf(x, k, "scale"))
        out = self.attr_is(e, st, m, "scale", "f64", sc, "the scale")
        lo, hi, nan = e.fint(st, sc)
        if not (lo > 0 or e.ev(st, T_("flt", FC(0.0), sc)) is True) or hi == INF and e.ev(st, T_("fin", sc)) is not True or nan and e.ev(st, T_("fin", sc)) is not True:
            out.append(("the scale is not known to be finite and strictly positive", sc))
        return out

    def result(self, e, st, m, d, x):
        """reasons why the accepted node x is not the well-formed one that the mapping m declares"""
        x = unboxed(e, st, x)
        k = KINDS.get(self.kind) if self.kind is not None else "Sub"
        if k is None:
            want = T_("at", d, fld(T_("at", m, S("type")), self.an.V["String"], 0))
            if x is want:
                return []
            if x.tag == "at" and x.a[0] is d and e.keq(st, x.a[1], want.a[1]) is True:
                return []
            return [("a reference is not replaced by the definition in scope", x)]
        if x.tag != "V" or x.a[0] != SN:
            return [("a node of unknown origin", x)]
        if x.a[1] != e.dom.ix[k]:
            return [("type %s is read as another kind of node" % (self.kind or "(none)"), x)]
        sf = e.dom.sf
        f = lambda n: sf(x, k, n)
        out = []
        if k in ("Real", "Int"):
            w = "f64" if k == "Real" else "i64"
            out += self.opt_is(e, st, m, "min", w, f("min"), "min") + self.opt_is(e, st, m, "max", w, f("max"), "max")
            out += self.attr_is(e, st, m, "init", w, f("init"), "the initial value")
            out += self.bounds(e, st, x, k, "min", "max", k == "Real")
            out += self.init_conforms(e, st, x, k, f("init"))
            out += self.scale(e, st, m, x, k)
        elif k == "Bool":
            out += self.attr_is(e, st, m, "init", "bool", f("init"), "the initial value")
        elif k == "Optional":
            out += self.attr_is(e, st, m, "initPresent", "bool", f("init_present"), "the initial presence") + self.part(e, st, m, "valueType", f("value_type"))
        elif k == "Array":
            out += self.attr_is(e, st, m, "size", "u64", f("size"), "the size") + self.part(e, st, m, "valueType", f("value_type"))
            if not e.ent_ge(st, ladd(f("size"), I(-2))):
                out.append(("the size is not known to be at least 2", f("size")))
        elif k == "AnonMap":
            out += self.opt_is(e, st, m, "minSize", "u64", f("min_size"), "minSize") + self.opt_is(e, st, m, "maxSize", "u64", f("max_size"), "maxSize")
            out += self.attr_is(e, st, m, "initSize", "u64", f("init_size"), "the initial size") + self.part(e, st, m, "valueType", f("value_type"))
            out += self.bounds(e, st, x, k, "min_size", "max_size", False)
            for w in ("min_size", "max_size"):
                for s2, b in e.mod.opt_cases(e, st.copy(), f(w)):
                    if b is None:
                        continue
                    if not e.ent_ge(s2, lsub(f("init_size"), b) if w == "min_size" else lsub(b, f("init_size"))):
                        out.append(("the initial size is not known to respect %s" % w, f("init_size")))
                    if w == "max_size" and not e.ent_ge(s2, ladd(b, I(-1))):
                        out.append(("the maximum size is not known to be at least 1", b))
        elif k == "Enum":
            out += self.attr_is(e, st, m, "init", "str", f("init"), "the initial value")
            out += self.values(e, st, m, f("values"))
            out += self.init_conforms(e, st, x, k, f("init"))
            if not e.ent_ge(st, ladd(LEN(e.deref_all(st, f("values"))), I(-2))):
                out.append(("not known to have at least two values", f("values")))
        elif k in ("Sub", "Variant"):
            mp = e.deref_all(st, f("map"))
            out += self.members(e, st, m, mp, k)
            if k == "Variant":
                out += self.attr_is(e, st, m, "init", "str", f("init"), "the initial option")
                if e.ev(st, T_("has", mp, e.deref_all(st, f("init")))) is not True:
                    out.append(("the initial option is not known to be declared", f("init")))
            if not e.ent_ge(st, ladd(LEN(mp), I(-1 if k == "Sub" else -2))):
                out.append(("a sub is not known to have a parameter" if k == "Sub" else "a variant is not known to have two options", mp))
        return out

    def values(self, e, st, m, v):
        v = e.deref_all(st, v)
        y = T_("at", m, S("values"))
        q = getattr(e, "given", {}).get(y)
        q = fld(y, self.an.V["Sequence"], 0) if q is None else q.a[2][0]
        if e.ev(st, EQ0(lsub(LEN(v), LEN(q)))) is not True:
            return [("the values are not those in the document", v)]
        j = T_("y", ("val",), e.idx, ("u",))
        s = st.copy()
        if not (e.add_ge(s, lin_of(j)) and e.add_ge(s, ladd(lsub(LEN(v), j), I(-1)))):
            return []
        out = []
        for s1, _, a in e.mod.item(e, s, v, lin_of(j)):
            for s2, _, b in e.mod.item(e, s1, q, lin_of(j)):
                b = e.deref_all(s2, b)
                t = b.a[2][0] if b.tag == "V" else fld(b, self.an.V["String"], 0)
                if not self.same(e, s2, a, t):
                    out.append(("a value is not the one in the document", a))
        return out

    def members(self, e, st, m, mp, k):
        out = []
        for s, n, v in elements(e, st, mp):
            v = unboxed(e, s, v)
            y = attr(v, "built")
            n = e.deref_all(s, n)
            if y is None or y.tag != "at" or y.a[0] is not m:
                out.append(("a parameter is not read from the document", v))
                continue
            src = text_of(self.an, y)
            if src is None or e.keq(s, n, src) is not True:
                out.append(("a parameter is read under another name", T_("tup", (n, v))))
            for w in (("type",) if k == "Sub" else ("type", "init")):
                if e.ev(s, e.VEQ(s, n, S(w))) is not False:
                    out.append(("the attribute %s becomes a parameter" % w, n))
            if k == "Sub" and e.ev(s, T_("pred", S("str::starts_with"), n, S(DEFKEY))) is not False:
                out.append(("a type definition becomes a parameter", n))
        return out

    # ---- scopes ----------------------------------------------------------------------------------------
    def scope(self, e, ev, m, d0):
        """reasons why a nested node is not read with the definitions in scope"""
        st = ev.st
        y, d = ev.data
        if y.tag != "at" or y.a[0] is not m:
            return [("recursion on something else than a part of the document", y)]
        if self.kind not in (None, "sub"):
            return [] if d is d0 or d.tag == "coll" and len(d.a[1]) == 1 and d.a[1][0].tag == "base" and d.a[1][0].a[0] is d0 else [("a nested node is read with other definitions in scope", d)]
        n = text_of(self.an, y)
        if n is None:
            return [("a member at a fixed name", y)]
        isdef = e.ev(st, T_("pred", S("str::starts_with"), n, S(DEFKEY)))
        if isdef is None:
            return [("a type definition is read like a parameter", y)]
        bound = lin_of(key_name(n).a[1]) if isdef else LEN(m)
        if d is d0:
            segs = ()
        elif d.tag == "coll" and d.a[1] and d.a[1][0].tag == "base" and d.a[1][0].a[0] is d0:
            segs = d.a[1][1:]
        else:
            return [("the definitions of the enclosing scopes are not visible", d)]
        return self.log(e, st, m, segs, bound, isdef)

    def log(self, e, st, m, segs, bound, isdef):
        out = []
        j = lin_of(T_("y", ("defpos",), e.idx, ("u",)))
        s0 = st.copy()
        if not (e.add_ge(s0, j) and e.add_ge(s0, ladd(lsub(bound, j), I(-1)))):
            return []
        who = "a type definition" if isdef else "a parameter"
        rest = [s0]          # positions that no part of the log accounts for
        for sg in segs:
            if sg.tag == "all":
                P_, lo, hi, alts = sg.a
            elif sg.tag == "one":
                y = attr(e.deref_all(st, sg.a[1].a[0][1]), "built") if sg.a[1].tag == "tup" else None
                n = text_of(self.an, y) if y is not None and y.tag == "at" and y.a[0] is m else None
                if n is None:
                    out.append(("a definition is not read from the document", sg.a[1]))
                    continue
                lo = lin_of(key_name(n).a[1])
                P_, hi, alts = None, ladd(lo, I(1)), None
            else:
                out.append(("unknown origin of a definition", sg))
                continue
            nxt, here = [], []
            for s in rest:
                a, b = e.split(s, T_("and", GE0(lsub(j, lo)), GE0(ladd(lsub(hi, j), I(-1)))))
                here += a
                nxt += b
            if alts is not None and not any(s is s0 for s in rest):
                # (whatever else is recorded in these rounds has to be a definition as well)
                for s in e.split(s0.copy(), T_("and", GE0(lsub(j, lo)), GE0(ladd(lsub(hi, j), I(-1)))))[0]:
                    for al in alts:
                        s2 = M.apply_facts(e, s.copy(), al.a[0], {P_: j}) if al.a[1] else None
                        for x in al.a[1] if s2 is not None else ():
                            out += self.entry_ok(e, s2, m, j, tsub(x.a[1], {P_: j}, {}))
            rest = nxt
            for s in here:
                if alts is None:
                    out += self.entry_ok(e, s, m, j, sg.a[1])
                    continue
                for al in alts:
                    s2 = M.apply_facts(e, s.copy(), al.a[0], {P_: j})
                    if s2 is None:
                        continue
                    items = [tsub(x.a[1], {P_: j}, {}) for x in al.a[1]]
                    if not items:
                        if not self.nodef(e, s2, m, j):
                            out.append(("%s is read without a definition that is in scope" % who, T_("kat", m, j)))
                    elif len(items) > 1:
                        out.append(("a definition is recorded twice", items[0]))
                    else:
                        out += self.entry_ok(e, s2, m, j, items[0])
        for s in rest:
            if not self.nodef(e, s, m, j):
                out.append(("%s is read without a definition that is in scope" % who, T_("kat", m, j)))
        return out

    def nodef(self, e, st, m, j):
        """is the key at position j known not to be that of a type definition?"""
        k = T_("kat", m, j)
        v = self.an.V["String"]
        e.adt_hint[k] = YAML
        d = e.disc_of(st, k)
        if d is not None and d != v or v in e.excl(st, k):
            return True
        return e.ev(st, T_("pred", S("str::starts_with"), fld(k, v, 0), S(DEFKEY))) is False

    def entry_ok(self, e, st, m, j, t):
        if t.tag != "tup":
            return [("the definitions in scope are changed by something else than a definition", t)]
        k, v = t.a[0]
        k, v = e.deref_all(st, k), unboxed(e, st, v)
        key = T_("kat", m, j)
        n = fld(key, self.an.V["String"], 0)
        out = []
        y = attr(v, "built")
        if y is None or y.tag != "at" or y.a[0] is not m or e.keq(st, y.a[1], key) is not True:
            out.append(("a definition is not read from its own entry", v))
        if not (k.tag == "app" and k.a[0] is S("str::strip_prefix") and same_term(e, st, k.a[1], n) and k.a[2] is S(DEFKEY)):
            out.append(("a definition is recorded under another name", k))
        return out


def text_of(an, y):
    """the text of the key under which a part of the document is found"""
    k = y.a[1]
    if k.tag == "kat":
        return fld(k, an.V["String"], 0)
    return k if key_name(k) is not None else None


def unboxed(e, st, x):
    return e.deref_all(st, x)
