"""Analysis of the JSON codec of values: reading an arbitrary document under a specification, writing a
conforming value and reading it back, writing the initial value and reading it back."""
from terms import *
from terms import T_, T
import engine as E
import roots
import prog as P
from engine import *
from nodes import VN, VAL, SN, SPEC, NAMES, NodeDomain, same_term, check_conf, tainted, elements, Problem

JSON = "serde_json::value::Value"


def unbox(t):
    t = E._peel(t)
    while t.tag == "adt" and t.a[0] == "alloc::boxed::Box":
        t = E._peel(t.a[1][0])
    return t


def is_adt(t, a):
    t = unbox(t)
    return t.tag == "adt" and t.a[0] == a


def ty_args(p, fn):
    b = p.bodies[fn]
    return [b.ltys[i + 1] for i in range(b.argc)]


def writers(p):
    """recursive functions from a value node to a JSON value"""
    return [f for f in p.bodies if p.recursive(f) and is_adt(p.bodies[f].ltys[0], JSON) and len(ty_args(p, f)) == 1 and is_adt(ty_args(p, f)[0], VN)]


def attr(t, k):
    if t.tag == "y" and len(t.a) > 2:
        for x in t.a[2]:
            if isinstance(x, tuple) and x[0] == k:
                return x[1]
    return None


def TOJSON(x):
    r = attr(x, "rt")
    return T_("app", S("tojson"), x if r is None else r)


def init_of(s):
    return T_("y", ("init", s), (), (("conf", s), ("initof", s)))


class CodecDomain(NodeDomain):
    def is_map(self, c):
        if c.tag == "fld" and c.a[1] == self.p.vidx(JSON, "Object") and c.a[2] == 0 and self.is_json(c.a[0]):
            return True
        return super().is_map(c)

    def is_json(self, t):
        if t.tag == "y":
            return "json" in t.a[2]
        if t.tag == "app":
            return t.a[0] in (S("tojson"), S("parsed"))
        if t.tag == "at":
            return t.a[0].tag == "fld" and self.is_json(t.a[0].a[0])
        return False

    def f_int(self, st, t):
        if t.tag == "app" and t.a[0] is S("num_f64"):
            return (-FMAX, FMAX, False)   # a JSON number is finite
        return super().f_int(st, t)


class Codec(roots.Analysis):
    """mode read: arbitrary documents; rt: documents written from a conforming value; init: written from the initial value"""

    def __init__(self, prog, mode):
        super().__init__(prog, mode)
        self.cm = mode
        self.W = writers(prog)
        self.inits = []
        self.texts = []

    def engine(self):
        e = super().engine()
        e.dom = CodecDomain(self.p)
        e.dom.eng = e
        e.specs = []
        for f in self.W:
            e.contracts[f] = self.write_contract
        return e

    def write_contract(self, e, st, a, info):
        x = e.deref_all(st, a[0])
        if x.tag == "V" or x is getattr(e, "rootval", None):
            return None
        j = TOJSON(x)
        e.adt_hint[j] = JSON
        return [(st, j)]

    def json_arg(self, fn):
        k = [i for i, t in enumerate(ty_args(self.p, fn)) if is_adt(t, JSON)]
        return k[0] if len(k) == 1 else None

    def contract(self, e, st, fn, args, info, early=False):
        rty = self.p.bodies[fn].ltys[0]
        args = [e.deref_all(st, a) for a in args]
        specs = [a for a, t in zip(args, ty_args(self.p, fn)) if is_adt(t, SN)]
        if early and (len(specs) != 1 or any(s is specs[0] for s in e.specs)):
            return None
        jx = self.json_arg(fn)
        if jx is None:
            if is_adt(rty, VN) and len(specs) == 1 and len(args) == 1 and self.cm == "init":
                return [(st, init_of(specs[0]))]
            return super().contract(e, st, fn, args, info, early)
        if early:
            return None
        j = args[jx]
        if len(specs) != 1:
            raise EngineLimit("reading recursion with %d specification nodes" % len(specs))
        pat, probs, _ = self.pattern(e, st, fn, args)
        self.hard.add(fn)
        if (fn, pat) not in self.done and (fn, pat) not in self.todo:
            self.todo.append((fn, pat))
            self.genv[fn] = info.genv
        r = rty
        if not (r.tag == "adt" and r.a[0] == RES and is_adt(r.a[1][0], VN)):
            raise EngineLimit("reading recursion with result type " + show(rty))
        x = j.a[1] if j.tag == "app" and j.a[0] is S("tojson") else None
        if self.cm in ("rt", "init") and x is not None:
            c = e.dom.conf(x)
            if c is not None and same_term(e, st, c, specs[0]):
                if self.cm == "init":
                    o = attr(x, "initof")
                    if o is not None and same_term(e, st, o, specs[0]):
                        return [(st, OK(x))]
                return [(st, OK(T_("y", ("rt", x), (), (("conf", specs[0]), ("rt", x), ("read", j)))))]
        pp = info.pp + ("rec",)
        s2 = st.copy()
        y = T_("y", pp, e.idx, (("conf", specs[0]), ("read", j)))
        return [(s2, ERR(e.fresh(r.a[1][1], pp + ("e",)))), (st, OK(y))]

    # ---- runs ------------------------------------------------------------------------------------
    def spec_node(self, e, st, kind):
        spec = T_("y", "spec", (), ("spec",))
        s = fld(spec, 0, 0)
        st.disc[s] = self.p.vidx(SN, kind)
        e.specs = [s]
        return spec, s

    def guard(self, name, e, f):
        e.rootname = name
        self.engines.append((name, e))
        try:
            f()
            self.steps = getattr(self, "steps", 0) + e.steps
            for ev in e.all_events("panic"):
                self.panics.append((name, ev))
        except EngineLimit as x:
            self.limits.append((name, str(x), tuple(e.stack)[-3:]))

    def run(self, kind, entry_read, entry_write=None, entry_init=None, pats=(), unknown=False):
        """one kind of specification node, read through the entry point and through the given recursive patterns;
        unknown: the document is an object with a key (at a fixed position) that the specification does not declare.
        Returns the outcomes (name, engine, state, kind, spec node, written value, document, accepted, result)"""
        out = []

        def go(fn, pat):
            e = self.engine()

            def body():
                st = State()
                spec, s = self.spec_node(e, st, kind)
                pre = []
                if self.cm == "read":
                    j = T_("y", "json", (), ("json",))
                    e.adt_hint[j] = JSON
                    if unknown:
                        st.disc[j] = self.p.vidx(JSON, "Object")
                        o = fld(j, st.disc[j], 0)
                        w = T_("y", "wit", (), ("u",))
                        e.add_ge(st, lin_of(w))
                        e.add_ge(st, ladd(lsub(LEN(o), w), I(-1)))
                        e.wits = [lin_of(w)]
                        st.pr[T_("has", e.dom.sf(s, kind, "map"), T_("kat", o, lin_of(w)))] = False
                    pre.append((st, None, j))
                else:
                    if self.cm == "rt":
                        v = T_("y", "val", (), (("confv", spec),))
                        vals = [(st, v)]
                        e.rootval = fld(v, 0, 0)
                    else:
                        vals = e.run_fn(st, entry_init, (), (spec,), T_("fr", "init"))
                        for s1, v in vals:
                            v = e.deref_all(s1, v)
                            x = e.deref_all(s1, v.a[2][0]) if v.tag == "V" and v.a[0] == VAL else fld(v, 0, 0)
                            self.inits.append((name, e, s1.copy(), kind, s, x))
                    for s1, v in vals:
                        for s2, j in e.run_fn(s1, entry_write, (), (v,), T_("fr", "write")):
                            pre.append((s2, v, e.deref_all(s2, j)))
                for s1, v, j in pre:
                    if fn is None:
                        args = [j, spec]
                        rd = entry_read
                        g = ()
                    else:
                        _, args, sp = self.inputs(e, fn, pat)
                        args = [tsub(a, {sp[0]: s}, {}) if not (a is sp[0]) else s for a in args]
                        args[self.json_arg(fn)] = j
                        rd = fn
                        g = self.genv.get(fn, ())
                    for s2, r in e.run_fn(s1, rd, g, tuple(args), T_("fr", "read")):
                        r = e.deref_all(s2, r)
                        for s3, ok, x in e.mod.res_cases(e, s2, r):
                            x = e.deref_all(s3, x) if ok else x
                            if ok and x.tag == "V" and x.a[0] == VAL:
                                x = e.deref_all(s3, x.a[2][0])
                            w = None
                            if v is not None:
                                v = e.deref_all(s3, v)
                                w = fld(v, 0, 0) if v.tag != "V" or v.a[0] == VAL else v
                                w = e.deref_all(s3, w)
                            out.append((name, e, s3, kind, s, w, j, ok, x))
            name = "%s %s" % (kind, roots.show_pat(pat) if pat else "entry")
            self.guard(name, e, body)
        go(None, None)
        for t in pats:
            go(*t)
        return out

    def patterns(self):
        """the ways in which the reading functions are re-entered, as seen so far"""
        r = [(fn, pat) for fn, pat in self.todo if self.json_arg(fn) is not None]
        return r


# ---- equality of JSON documents ---------------------------------------------------------------------

def same_json(e, st, a, b, depth=0):
    """reasons why the documents a and b are not known to be equal"""
    a, b = e.deref_all(st, a), e.deref_all(st, b)
    if same_term(e, st, a, b):
        return []
    p = e.p
    da = a.a[1] if a.tag == "V" else e.disc_of(st, a)
    db = b.a[1] if b.tag == "V" else e.disc_of(st, b)
    if da is None or db is None:
        return ["%s is not known to equal %s" % (show(a)[:80], show(b)[:80])]
    if da != db:
        return ["the kind of document changes"]
    if da == p.vidx(JSON, "Null"):
        return []
    x, y = (t.a[2][0] if t.tag == "V" else fld(t, da, 0) for t in (a, b))
    x, y = e.deref_all(st, x), e.deref_all(st, y)
    if da == p.vidx(JSON, "Array"):
        return same_seq(e, st, x, y, lambda s, p, q: same_json(e, s, p, q, depth + 1), depth)
    if da == p.vidx(JSON, "Object"):
        return same_map(e, st, x, y, lambda s, p, q: same_json(e, s, p, q, depth + 1))
    if x.tag == y.tag == "app" and x.a[0] is y.a[0]:
        if all(same_term(e, st, u, w) for u, w in zip(x.a[1:], y.a[1:])):
            return []
    if same_term(e, st, x, y):
        return []
    return ["%s is not known to equal %s" % (show(x)[:80], show(y)[:80])]


def same_seq(e, st, x, y, eq, depth=0):
    if e.ev(st, EQ0(lsub(LEN(x), LEN(y)))) is not True:
        return ["the length changes"]
    j = T_("y", ("same", depth), e.idx, ("u",))
    s = st.copy()
    if not (e.add_ge(s, lin_of(j)) and e.add_ge(s, ladd(lsub(LEN(x), j), I(-1)))):
        return []
    out = []
    for s1, k, v in e.mod.item(e, s, x, lin_of(j)):
        for s2, k2, v2 in e.mod.item(e, s1, y, lin_of(j)):
            out += eq(s2, v, v2)
    return out


def same_map(e, st, x, y, eq):
    if e.ev(st, EQ0(lsub(LEN(x), LEN(y)))) is not True:
        return ["the number of entries changes"]
    out = []
    for s, k, v in elements(e, st, x):
        for s2, o in e.mod.lookup(e, s, y, k):
            if o is None:
                out.append("entry %s is not known to be kept" % show(k)[:80])
            else:
                out += eq(s2, v, o)
    return out


# ---- is a read value the one that the document describes? ----------------------------------------------

def reads(e, st, x, j, s):
    """is x the result of reading document j under specification node s?"""
    x = e.deref_all(st, x)
    r = attr(x, "read")
    return r is not None and same_term(e, st, r, j) and same_term(e, st, e.dom.conf(x), s)


def faithful(e, st, x, j, s):
    """reasons why the accepted value x is not known to be what document j says under specification node s (x conforms)"""
    p = e.p
    x = e.deref_all(st, x)
    if reads(e, st, x, j, s):
        return []
    if x.tag != "V" or x.a[0] != VN:
        return ["value of unknown origin: " + show(x)[:100]]
    k = NAMES[x.a[1]]
    dj = j.a[1] if j.tag == "V" else e.disc_of(st, j)

    def part(n):
        v = p.vidx(JSON, n)
        return None if dj != v else e.deref_all(st, fld(j, v, 0) if j.tag != "V" else j.a[2][0])
    sf = e.dom.sf
    if k in ("Real", "Int", "Bool", "Enum"):
        y = part({"Real": "Number", "Int": "Number", "Bool": "Bool", "Enum": "String"}[k])
        if y is None:
            return ["a %s is read from a document of another kind" % k.lower()]
        v = e.deref_all(st, x.a[2][0])
        if k == "Real":
            ok = v is T_("app", S("num_f64"), y)
        elif k == "Int":
            ok = e.mod.unlin(v) is T_("app", S("num_i64"), y)
        else:
            ok = same_term(e, st, v, y)
        return [] if ok else ["the %s is not the one in the document: %s" % (k.lower(), show(v)[:100])]
    if k == "Const":
        return [] if dj == p.vidx(JSON, "Null") else ["a const is read from something else than null"]
    if k == "Optional":
        null = p.vidx(JSON, "Null")
        out = []
        for s2, o in e.mod.opt_cases(e, st.copy(), x.a[2][0]):
            if o is None:
                if dj != null:
                    out.append("a present value is read as an absent one")
            elif not reads(e, s2, o, j, sf(s, "Optional", "value_type")):
                o = e.deref_all(s2, o)
                if not (dj == null and e.disc_of(s2, TOJSON(o)) == null):
                    out.append("a present optional is not read from the document: " + show(o)[:100])
        return out
    m = e.deref_all(st, x.a[2][0])
    if k == "Array" or k == "AnonMap" and dj == p.vidx(JSON, "Array"):
        y = part("Array")
        if y is None:
            return ["an array is read from a document of another kind"]
        if e.ev(st, EQ0(lsub(LEN(m), LEN(y)))) is not True:
            return ["elements of the document are dropped or added"]
        out = []
        vt = sf(s, k, "value_type")
        if k == "Array":
            q = T_("y", ("same", 0), e.idx, ("u",))
            s1 = st.copy()
            if not (e.add_ge(s1, lin_of(q)) and e.add_ge(s1, ladd(lsub(LEN(m), q), I(-1)))):
                return []
            for s2, _, v in e.mod.item(e, s1, m, lin_of(q)):
                if not reads(e, s2, v, T_("at", y, lin_of(q)), vt):
                    out.append("an element is not read from its position")
        else:
            for s2, kk, v in elements(e, st, m):
                r = attr(e.deref_all(s2, v), "read")
                if r is None or r.tag != "at" or r.a[0] is not y:
                    out.append("an element is not read from the document")
        return out
    y = part("Object")
    if y is None:
        return ["a %s is read from a document of another kind" % k.lower()]
    out = []
    if k == "Variant":
        nm, child = x.a[2]
        nm = e.deref_all(st, nm)
        if e.ev(st, EQ0(lsub(LEN(y), I(1)))) is not True:
            out.append("a variant is read from an object with other entries than its own")
        if e.ev(st, T_("has", y, nm)) is not True:
            out.append("the variant's name is not the key in the document")
        if not reads(e, st, child, T_("at", y, nm), T_("at", sf(s, "Variant", "map"), nm)) and not reads(e, st, child, T_("at", y, T_("kat", y, I(0))), T_("at", sf(s, "Variant", "map"), nm)):
            out.append("the variant's content is not read from its entry")
        return out
    for s2, kk, v in elements(e, st, m):
        r = attr(e.deref_all(s2, v), "read")
        if r is None or r.tag != "at" or r.a[0] is not y:
            out.append("an entry is not read from the document")
        elif k == "Sub" and e.keq(s2, r.a[1], kk) is not True:
            out.append("an entry is read from another key")
        elif k == "AnonMap" and not keyed(e, s2, kk, r.a[1]):
            out.append("an entry is filed under another key")
    # (entries of a sub that are not specified: see the runs with an unknown key)
    if k == "AnonMap" and e.ev(st, EQ0(lsub(LEN(m), LEN(y)))) is not True:
        out.append("entries of the document are dropped or merged")
    return out


def keyed(e, st, k, name):
    k = e.mod.unlin(e.deref_all(st, k))
    if k.tag == "app" and k.a[0] is S("parse") and same_term(e, st, k.a[-1], name):
        return True
    name = e.deref_all(st, name)
    return name.tag == "app" and name.a[0] is S("dec") and e.keq(st, lin_of(name.a[1]), lin_of(k)) is True
