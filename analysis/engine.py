"""Abstract interpreter over the MIR dump: values are hash-consed terms, states carry facts about
opaque terms (enum discriminants, linear inequalities over integers, float intervals and orders,
boolean atoms); loops are solved by fixpoint iteration with widening; calls are inlined; recursion
is cut by contracts that the rules supply (and whose preconditions are checked at every cut)."""
import math, re, os, sys
from terms import *
from terms import T_, T
from prog import Prog

INF = math.inf
FMAX = sys.float_info.max
sys.setrecursionlimit(20000)
DEBUG = os.environ.get("ENGDEBUG")


class EngineLimit(Exception):
    """the code uses something the engine does not model; the check reports no verdict from this root"""


def FC(x):
    return T_("fc", repr(float(x)))


def fcv(t):
    return float(t.a[0])


def NOT(p):
    if p is TRUE:
        return FALSE
    if p is FALSE:
        return TRUE
    if p.tag == "not":
        return p.a[0]
    return T_("not", p)


def GE0(e):
    """e >= 0"""
    e = lin_of(e)
    if isconst(e):
        return B(cval(e) >= 0)
    return T_("ge0", e)


def EQ0(e):
    e = lin_of(e)
    if isconst(e):
        return B(cval(e) == 0)
    if e.a[1][0][1] < 0:
        e = lmul(e, -1)
    return T_("eq0", e)


@norm_rule("ge0")
def _(e):
    return GE0(e)


@norm_rule("eq0")
def _(e):
    return EQ0(e)


@norm_rule("not")
def _(p):
    return NOT(p)


class State:
    __slots__ = ("cells", "disc", "nd", "ge", "pr", "fi", "fo", "_k")

    def __init__(self):
        self.cells = {}
        self.disc = {}
        self.nd = {}
        self.ge = frozenset()
        self.pr = {}
        self.fi = {}
        self.fo = frozenset()
        self._k = None

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.disc = dict(self.disc)
        s.nd = dict(self.nd)
        s.ge = self.ge
        s.pr = dict(self.pr)
        s.fi = dict(self.fi)
        s.fo = self.fo
        s._k = None
        return s

    def ckey(self):
        return frozenset(self.cells.items())

    def fkey(self):
        return (frozenset(self.disc.items()), frozenset(self.nd.items()), self.ge, frozenset(self.pr.items()), frozenset(self.fi.items()), self.fo)

    def key(self):
        return (self.ckey(), self.fkey())

    # facts as a uniform list of tuples
    def facts(self):
        for t, v in self.disc.items():
            yield ("disc", t, v)
        for t, v in self.nd.items():
            yield ("nd", t, v)
        for e in self.ge:
            yield ("ge", e)
        for t, v in self.pr.items():
            yield ("pr", t, v)
        for t, v in self.fi.items():
            yield ("fi", t, v)
        for f in self.fo:
            yield ("fo",) + f

    def nofacts(self):
        self.disc = {}
        self.nd = {}
        self.ge = frozenset()
        self.pr = {}
        self.fi = {}
        self.fo = frozenset()


def fact_terms(f):
    k = f[0]
    if k == "fo":
        return (f[1], f[2])
    return (f[1],)


def fact_sub(f, m, memo):
    k = f[0]
    if k == "fo":
        return ("fo", tsub(f[1], m, memo), tsub(f[2], m, memo), f[3])
    return (k, tsub(f[1], m, memo)) + f[2:]


def fact_syms(f):
    s = EMPTY
    for t in fact_terms(f):
        s = s | syms(t)
    return s


class Frame:
    __slots__ = ("body", "fid", "genv", "fn")

    def __init__(self, body, fid, genv):
        self.body = body
        self.fid = fid
        self.genv = genv
        self.fn = body.id


class Event:
    __slots__ = ("kind", "fn", "sp", "data", "st", "chain")

    def __init__(self, kind, fn, sp, data, st, chain):
        self.kind = kind
        self.fn = fn
        self.sp = sp
        self.data = data
        self.st = st
        self.chain = chain

    def key(self):
        return (self.kind, self.fn, self.sp, str(self.data))


class NullDomain:
    def disc_hint(self, st, t):
        return None

    def disc_excl(self, st, t):
        return ()

    def lin_facts(self, st, atoms):
        return ()

    def has_hint(self, st, coll, key):
        return None

    def f_int(self, st, t):
        return None

    def f_ord(self, st, t):
        return ()

    def attrs(self, st, t):
        return ()

    def lub_attrs(self, states, ts):
        return ()

    def nonneg(self, t):
        return False

    def canon(self, t):
        return t


OPT = "core::option::Option"
RES = "core::result::Result"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"


def V(adt, v, *fs):
    return T_("V", adt, v, tuple(fs))


NONE = V(OPT, 0)


def SOME(x):
    return V(OPT, 1, x)


def OK(x):
    return V(RES, 0, x)


def ERR(x):
    return V(RES, 1, x)


def READY(x):
    return V(POLL, 0, x)


PENDING = V(POLL, 1)


def LEN(t):
    """length of a collection term, as a linear term"""
    if t.tag == "coll":
        return t.a[2]
    if t.tag in ("keys", "values", "shuf"):
        return LEN(t.a[0])
    if t.tag == "s":
        return I(len(t.a[0].encode()))
    if t.tag == "arr":
        return I(len(t.a[0]))
    if t.tag == "sub":
        return lsub(t.a[2], t.a[1])
    return lin_of(T_("len", t))


@norm_rule("len")
def _len(t):
    x = LEN(t)
    return x.a[1][0][0] if x.tag == "i" and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 else x


def unescape(t):
    """text of a string literal as the compiler prints it"""
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), t, flags=re.S)


def COLL(kind, segs, ln, flags=frozenset()):
    return T_("coll", kind, tuple(segs), lin_of(ln), flags)


def ONE(k, v):
    return T_("one", k, v)


NOKEY = T_("nokey")


def ALL(P, lo, hi, alts):
    return T_("all", P, lin_of(lo), lin_of(hi), alts)


def ALT(facts, items):
    return T_("alt", tuple(facts), tuple(items))


def bound_level(t):
    """largest binder level inside t"""
    m = 0
    if t.tag == "all":
        m = t.a[0].a[1][1]
    for c in children(t):
        if c.tag in ("y", "s", "fc"):
            pass
        m = max(m, bound_level(c))
    return m


def BV(level):
    return T_("y", "b", ("b", level), ("u",))


class Engine:
    def __init__(self, prog, dom=None):
        self.p = prog
        self.dom = dom or NullDomain()
        self.dom.eng = self
        self.idx = ()
        self.stack = []          # inlined function ids
        self.sps = []            # call site spans
        self.events = [{}]
        self.contracts = {}      # fn id -> callable(eng, st, fr, fnid, genv, args, info)
        self.inline_rec = 0       # recursion is written out to this depth (for inputs of known shape)
        self.contract_for = None  # callable deciding recursion cuts
        self.overrides = {}      # dispatch key or fn id -> model
        self.volatile = set()    # adt ids treated as unobservable state
        self.constfields = {}    # (adt, variant, field) -> term
        self.unsigned = set()
        self.unknown = {}
        self.wits = []         # fixed positions that loops are related to
        self.visited = {}
        self.sites = 0
        self.preds = None
        self.memo_loops = {}
        self.steps = 0
        self.limit_steps = 2000000
        self.cuts = {}
        self.branch_hooks = []
        self.unroll = set()    # functions whose loops are written out when they end within a few rounds
        self.unroll_all = 0    # the same for every loop, up to this many rounds
        import models
        self.models = models.MODELS
        self.mod = models

    # ---- events ---------------------------------------------------------------------------------
    def event(self, kind, st, data=(), sp=None):
        fn = self.stack[-1] if self.stack else "?"
        ev = Event(kind, fn, sp or (self.sps[-1] if self.sps else ""), data, st, tuple(self.sps[-6:]))
        self.events[-1].setdefault((ev.key(), st.key() if st is not None else None), ev)

    def all_events(self, kind=None):
        return [e for e in self.events[0].values() if kind is None or e.kind == kind]

    # ---- symbols --------------------------------------------------------------------------------
    def sym(self, pp, *attrs):
        return T_("y", pp, self.idx, tuple(attrs))

    def fresh(self, ty, pp, unk=None):
        k = ty.tag
        at = (("unk", unk),) if unk else ()
        if k == "int":
            if ty.a[0].startswith("u"):
                return lin_of(self.sym(pp, "u", *at))
            return lin_of(self.sym(pp, *at))
        if k == "tuple":
            return T_("tup", tuple(self.fresh(t, (pp, i), unk) for i, t in enumerate(ty.a[0])))
        if k in ("ref", "ptr"):
            return self.fresh(ty.a[0], pp, unk)
        if k == "adt":
            if ty.a[0] in self.volatile:
                return T_("vol", ty.a[0])
            if ty.a[0] in ("alloc::boxed::Box",) and ty.a[1]:
                return self.fresh(ty.a[1][0], pp, unk)
        if k == "fndef":
            return T_("fn", ty.a[0], ty.a[1])
        return self.sym(pp, *at)

    # ---- facts ----------------------------------------------------------------------------------
    def disc_of(self, st, t):
        if t.tag == "V":
            return t.a[1]
        if t.tag == "ref":
            t = self.deref_all(st, t)
            if t.tag == "V":
                return t.a[1]
        t = self.dom.canon(t)
        v = st.disc.get(t)
        if v is None:
            v = self.dom.disc_hint(st, t)
        return v

    def deref_all(self, st, t):
        while t.tag == "ref":
            t = self.read(st, t.a[0], t.a[1])
        return t

    def excl(self, st, t):
        t = self.dom.canon(t)
        return set(st.nd.get(t, ())) | set(self.dom.disc_excl(st, t))

    def set_disc(self, st, t, v, n=None):
        """assume discriminant; returns False when infeasible"""
        d = self.disc_of(st, t)
        if d is not None:
            return d == v
        if v in self.excl(st, t):
            return False
        t = self.dom.canon(t)
        st.disc[t] = v
        st.nd.pop(t, None)
        return True

    def set_ndisc(self, st, t, v, n):
        d = self.disc_of(st, t)
        if d is not None:
            return d != v
        ex = self.excl(st, t) | {v}
        if len(ex) >= n:
            return False
        t = self.dom.canon(t)
        if len(ex) == n - 1:
            st.disc[t] = (set(range(n)) - ex).pop()
            st.nd.pop(t, None)
        else:
            st.nd[t] = frozenset(ex)
        return True

    def nonneg_atom(self, a):
        if a.tag == "len":
            return True
        if a.tag == "y":
            return "u" in a.a[2]
        if a in self.unsigned:
            return True
        return self.dom.nonneg(a)

    def lin_ctx(self, st, e, wide=False):
        """constraints relevant for the linear term e"""
        cons = set()
        atoms = set(a for a, _ in e.a[1])
        if wide:
            for c in st.ge:
                if len(c.a[1]) == 1:
                    atoms.add(c.a[1][0][0])
        todo = list(atoms)
        pool = {}
        for c in st.ge:
            for a, _ in c.a[1]:
                pool.setdefault(a, []).append(c)
        rounds = 0
        done = set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            new = []
            if self.nonneg_atom(a):
                cons.add(lin_of(a))
            new += pool.get(a, ())
            new += self.atom_facts(st, a)
            for c in new:
                if c not in cons:
                    cons.add(c)
                    for b, _ in c.a[1]:
                        if b not in done:
                            todo.append(b)
            rounds += 1
            if rounds > 400:
                break
        return cons

    def atom_facts(self, st, a):
        if a in self._af:
            return []
        self._af.add(a)
        try:
            return self._atom_facts(st, a)
        finally:
            self._af.discard(a)

    def _atom_facts(self, st, a):
        out = list(self.dom.lin_facts(st, a))
        f = self.mod.ATOM_FACTS.get(a.tag)
        if f:
            out += f(self, st, a)
        if a.tag == "len":
            f = self.mod.LEN_FACTS.get(a.a[0].tag)
            if f:
                out += f(self, st, a, a.a[0])
        return out

    _af = set()

    def ent_ge(self, st, e):
        """state entails e >= 0"""
        e = lin_of(e)
        if isconst(e):
            return cval(e) >= 0
        if e in st.ge:
            return True
        neg = lsub(I(-1), e)
        c1 = self.lin_ctx(st, e)
        if Lin.unsat(c1 | {neg}):
            return True
        if self._af:
            return False
        c2 = self.lin_ctx(st, e, True)
        return len(c2) > len(c1) and Lin.unsat(c2 | {neg})

    def add_ge(self, st, e):
        e = lin_of(e)
        if isconst(e):
            return cval(e) >= 0
        if e in st.ge:
            return True
        ctx = self.lin_ctx(st, e)
        if Lin.unsat(ctx | {e}):
            return False
        if not Lin.unsat(ctx | {lsub(I(-1), e)}):
            st.ge = st.ge | {e}
        return True

    # floats
    def fint(self, st, t, depth=0):
        """(lo, hi, maybe_nan) ; infinite values are possible iff the bound is infinite"""
        if t.tag == "fc":
            x = fcv(t)
            if x != x:
                return (INF, -INF, True)
            return (x, x, False)
        r = (-INF, INF, True)
        if depth < 30:
            f = self.mod.FINT.get(t.tag if t.tag != "app" else t.a[0])
            if f:
                r = f(self, st, t, depth + 1)
        k = st.fi.get(t)
        if k:
            r = _meet(r, k)
        h = self.dom.f_int(st, t)
        if h:
            r = _meet(r, h)
        return r

    def f_edges(self, st, t):
        for a, b, s in st.fo:
            if a is t:
                yield b, s
        for b, s in self.dom.f_ord(st, t):
            yield b, s

    def f_le(self, st, a, b, strict=False):
        """entailed a <= b (or a < b), both not NaN"""
        if a is b and not strict:
            return not self.fint(st, a)[2]
        ia, ib = self.fint(st, a), self.fint(st, b)
        if ia[2] or ib[2]:
            return False
        if ia[1] < ib[0] or (not strict and ia[1] <= ib[0]):
            return True
        seen = {}
        todo = [(a, False)]
        while todo:
            x, s = todo.pop()
            if seen.get(x, None) in (True,) or (x in seen and seen[x] == s):
                continue
            seen[x] = s
            for y, s2 in self.f_edges(st, x):
                s3 = s or s2
                if y is b and (s3 or not strict):
                    return True
                hy = self.fint(st, y)
                if not hy[2] and (hy[1] < ib[0] or (hy[1] <= ib[0] and (s3 or not strict))):
                    return True
                todo.append((y, s3))
        return False

    # ---- predicates -----------------------------------------------------------------------------
    def ev(self, st, p):
        """truth value of predicate p: True / False / None"""
        k = p.tag
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "not":
            r = self.ev(st, p.a[0])
            return None if r is None else not r
        if k == "and":
            rs = [self.ev(st, x) for x in p.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == "or":
            rs = [self.ev(st, x) for x in p.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if k == "ge0":
            e = p.a[0]
            if self.ent_ge(st, e):
                return True
            if self.ent_ge(st, lsub(I(-1), e)):
                return False
            return None
        if k == "eq0":
            e = p.a[0]
            if self.ent_ge(st, e) and self.ent_ge(st, lmul(e, -1)):
                return True
            if self.ent_ge(st, ladd(e, I(-1))) or self.ent_ge(st, lsub(I(-1), e)):
                return False
            return None
        if k in ("flt", "fle", "feq"):
            a, b = p.a
            if a.tag == "fc" and b.tag == "fc":
                x, y = fcv(a), fcv(b)
                return {"flt": x < y, "fle": x <= y, "feq": x == y}[k]
            if k == "flt":
                if self.f_le(st, a, b, True):
                    return True
                if self.f_le(st, b, a):
                    return False
            elif k == "fle":
                if self.f_le(st, a, b):
                    return True
                if self.f_le(st, b, a, True):
                    return False
            else:
                if a is b and not self.fint(st, a)[2]:
                    return True
                if self.f_le(st, a, b, True) or self.f_le(st, b, a, True):
                    return False
            ia, ib = self.fint(st, a), self.fint(st, b)
            if ia[0] > ia[1] or ib[0] > ib[1]:
                return False  # certainly NaN
            return st.pr.get(p)
        if k == "fin":
            lo, hi, nan = self.fint(st, p.a[0])
            if not nan and lo > -INF and hi < INF:
                return True
            if lo > hi or lo == INF or hi == -INF:
                return False
            return st.pr.get(p)
        if k == "nan":
            lo, hi, nan = self.fint(st, p.a[0])
            if not nan:
                return False
            if lo > hi:
                return True
            return st.pr.get(p)
        if k == "isd":
            d = self.disc_of(st, p.a[0])
            if d is not None:
                return d == p.a[1]
            if p.a[1] in self.excl(st, p.a[0]):
                return False
            return None
        if k == "has":
            r = self.dom.has_hint(st, p.a[0], p.a[1])
            if r is None:
                r = self.mod.has_struct(self, st, p.a[0], p.a[1])
            if r is None:
                r = st.pr.get(p)
            if r is None and self.ent_ge(st, lmul(LEN(p.a[0]), -1)):
                r = False
            return r
        if k == "veq":
            r = self.keq(st, p.a[0], p.a[1])
            return r
        if k == "nondet":
            return None
        return st.pr.get(p)

    def keq(self, st, a, b):
        """are two (non-float) values equal?"""
        a = self.deref_all(st, a)
        b = self.deref_all(st, b)
        if a is b:
            return True
        if a.tag == "s" and b.tag == "s":
            return a.a[0] == b.a[0]
        if a.tag == "i" or b.tag == "i":
            return self.ev(st, EQ0(lsub(a, b)))
        if a.tag == "V" and b.tag == "V":
            if a.a[1] != b.a[1]:
                return False
            rs = [self.keq(st, x, y) for x, y in zip(a.a[2], b.a[2])]
            if any(r is False for r in rs):
                return False
            return True if all(rs) and None not in rs else None
        if a.tag == "tup" and b.tag == "tup":
            rs = [self.keq(st, x, y) for x, y in zip(a.a[0], b.a[0])]
            if any(r is False for r in rs):
                return False
            return True if None not in rs and all(rs) else None
        if a.tag == b.tag and a.tag in ("kat",) and a.a[0] is b.a[0]:
            return self.keq(st, a.a[1], b.a[1])
        if a.tag == b.tag == "at" and a.a[0] is b.a[0] and self.mod.distinct(a.a[0]):
            return self.keq(st, a.a[1], b.a[1])
        if a.tag == b.tag == "app" and a.a[0] is b.a[0] and a.a[0].tag == "s" and a.a[0].a[0] in self.mod.INJECTIVE and len(a.a) == len(b.a) == 2:
            return self.keq(st, a.a[1], b.a[1])
        if a.tag == b.tag == "fld" and a.a[1] == b.a[1]:
            x, y = self.mod.inj_key(a), self.mod.inj_key(b)
            if x is not None and y is not None and x.a[0] is y.a[0]:
                return self.keq(st, x, y)
        p = T_("veq", a, b) if a.id < b.id else T_("veq", b, a)
        r = st.pr.get(p)
        if r is None:
            r = self._veq_closure(st, a, b)
        return r

    def _veq_closure(self, st, a, b):
        """equality through asserted equalities and one disequality"""
        cls = {a}
        cb = {b}
        for c, goal in ((cls, b), (cb, a)):
            todo = list(c)
            while todo:
                x = todo.pop()
                for p, v in st.pr.items():
                    if p.tag == "veq" and v:
                        o = p.a[1] if p.a[0] is x else p.a[0] if p.a[1] is x else None
                        if o is not None and o not in c:
                            c.add(o)
                            todo.append(o)
        if cls & cb:
            return True
        if len(cls) > 1 or len(cb) > 1:
            for p, v in st.pr.items():
                if p.tag == "veq" and not v:
                    if (p.a[0] in cls and p.a[1] in cb) or (p.a[1] in cls and p.a[0] in cb):
                        return False
            for x in cls:
                if x.tag == "kat":
                    for y in cb:
                        if y.tag == "kat" and y.a[0] is x.a[0] and self.ev(st, EQ0(lsub(x.a[1], y.a[1]))) is False:
                            return False
            sa = [x for x in cls if x.tag == "s"]
            sb = [x for x in cb if x.tag == "s"]
            if sa and sb and sa[0] is not sb[0]:
                return False
        return None

    def assume(self, st, p, val=True):
        """list of states in which p has the given truth value (st is consumed)"""
        k = p.tag
        if k == "not":
            return self.assume(st, p.a[0], not val)
        if k == "nondet":
            return [st]
        r = self.ev(st, p)
        if r is not None:
            return [st] if r == val else []
        st._k = None
        if k == "ge0":
            if self.preds is not None:
                self.preds.add(p.a[0])
            e = p.a[0] if val else lsub(I(-1), p.a[0])
            return [st] if self.add_ge(st, e) else []
        if k == "eq0":
            e = p.a[0]
            if self.preds is not None:
                self.preds.add(e)
            if val:
                return [st] if self.add_ge(st, e) and self.add_ge(st, lmul(e, -1)) else []
            out = []
            for x in (ladd(e, I(-1)), lsub(I(-1), e)):
                s = st.copy()
                if self.add_ge(s, x):
                    out.append(s)
            return out
        if k in ("flt", "fle", "feq"):
            return self._assume_f(st, p, val)
        if k == "fin":
            x = p.a[0]
            if val:
                st.fi[x] = _meet(st.fi.get(x, (-INF, INF, True)), (-FMAX, FMAX, False))
                return [st]
            lo, hi, nan = self.fint(st, x)
            st.pr[p] = False
            return [st]
        if k == "nan":
            x = p.a[0]
            if val:
                st.fi[x] = (INF, -INF, True)
            else:
                lo, hi, nan = self.fint(st, x)
                st.fi[x] = (lo, hi, False)
            return [st]
        if k == "isd":
            n = p.a[2]
            if val:
                return [st] if self.set_disc(st, p.a[0], p.a[1], n) else []
            return [st] if self.set_ndisc(st, p.a[0], p.a[1], n) else []
        if k == "and":
            if val:
                out = [st]
                for x in p.a:
                    out = [z for s in out for z in self.assume(s, x, True)]
                return out
            out = []
            pre = [st]
            for x in p.a:
                for s in pre:
                    out += self.assume(s.copy(), x, False)
                pre = [z for s in pre for z in self.assume(s, x, True)]
            return out
        if k == "or":
            return self.assume(st, T_("and", *[NOT(x) for x in p.a]), not val)
        if k == "veq":
            a, b = p.a
            if a.tag == "tup" and b.tag == "tup" and val:
                out = [st]
                for x, y in zip(a.a[0], b.a[0]):
                    out = [z for s in out for z in self.assume(s, self.VEQ(s, x, y), True)]
                return out
            if a.id > b.id:
                p = T_("veq", b, a)
            st.pr[p] = val
            if val:
                # conflicting constants
                if self._veq_closure(st, a, b) is False:
                    return []
            return [st]
        st.pr[p] = val
        h = self.mod.ON_ASSUME.get(k)
        if h:
            return h(self, st, p, val)
        return [st]

    def VEQ(self, st, a, b):
        a = self.deref_all(st, a)
        b = self.deref_all(st, b)
        if a is b:
            return TRUE
        if a.tag == "i" or b.tag == "i":
            return EQ0(lsub(a, b))
        if a.tag == "V" and b.tag == "V" and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            ps = [self.VEQ(st, x, y) for x, y in zip(a.a[2], b.a[2])]
            return ps[0] if len(ps) == 1 else T_("and", *ps) if ps else TRUE
        if a.tag == "V" and b.tag == "V" and a.a[1] != b.a[1]:
            return FALSE
        if a.tag in ("T", "F"):
            return b if a is TRUE else NOT(b)
        if b.tag in ("T", "F"):
            return a if b is TRUE else NOT(a)
        return T_("veq", a, b) if a.id < b.id else T_("veq", b, a)

    def _assume_f(self, st, p, val):
        k = p.tag
        a, b = p.a
        ia, ib = self.fint(st, a), self.fint(st, b)
        nan = ia[2] or ib[2]

        def le(s, x, y, strict):
            ix, iy = self.fint(s, x), self.fint(s, y)
            hi = math.nextafter(iy[1], -INF) if strict else iy[1]
            lo = math.nextafter(ix[0], INF) if strict else ix[0]
            nx = _meet((ix[0], ix[1], False), (-INF, hi, False))
            ny = _meet((iy[0], iy[1], False), (lo, INF, False))
            if nx[0] > nx[1] or ny[0] > ny[1]:
                return False
            if x.tag != "fc":
                s.fi[x] = nx
            if y.tag != "fc":
                s.fi[y] = ny
            if x.tag != "fc" and y.tag != "fc":
                s.fo = s.fo | {(x, y, strict)}
            return True

        if val:
            if k == "feq":
                return [st] if le(st, a, b, False) and le(st, b, a, False) else []
            return [st] if le(st, a, b, k == "flt") else []
        out = []
        if nan:
            s = st.copy()
            s.pr[p] = False
            out.append(s)
        if k == "feq":
            for x, y in ((a, b), (b, a)):
                s = st.copy()
                if le(s, x, y, True):
                    out.append(s)
        elif not nan:
            if le(st, b, a, k == "fle"):
                out.append(st)
        return out

    def split(self, st, p):
        """(states where p, states where not p)"""
        r = self.ev(st, p)
        if r is True:
            return [st], []
        if r is False:
            return [], [st]
        s2 = st.copy()
        return self.assume(st, p, True), self.assume(s2, p, False)

    def split_disc(self, st, t, adt):
        """[(state, variant index)] over the feasible variants"""
        t = self.deref_all(st, t)
        d = self.disc_of(st, t)
        if d is not None:
            return [(st, d)]
        n = self.p.nvariants(adt)
        ex = self.excl(st, t)
        out = []
        for v in range(n):
            if v in ex:
                continue
            s = st.copy()
            if self.set_disc(s, t, v, n):
                out.append((s, v))
        return out

    # ---- memory ---------------------------------------------------------------------------------
    def cell(self, fr, local):
        return T_("c", fr.fid, local)

    def proj1(self, val, step):
        k = step[0]
        if k == ".":
            if val.tag in ("moved", "uninit"):
                return val
            if val.tag == "vol":
                return val
            return fld(val, step[1], step[2])
        if k == "e":   # known structural element of a collection: (e, segment index)
            return val.a[1][step[1]].a[1]
        raise EngineLimit("projection %r" % (step,))

    def read(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            return UNINIT
        for s in path:
            if v.tag == "ref":
                v = self.deref_all(st, v)
            v = self.proj1(v, s)
        return v

    def write(self, st, cell, path, new):
        st._k = None
        if not path:
            st.cells[cell] = new
            return
        st.cells[cell] = self._wr(st, st.cells.get(cell, UNINIT), path, 0, new)

    def _wr(self, st, val, path, i, new):
        if i == len(path):
            return new
        s = path[i]
        if val.tag == "vol":
            return val
        if s[0] == ".":
            shape = s[3]
            if val.tag == "V":
                fs = list(val.a[2])
                while len(fs) <= s[2]:
                    fs.append(UNINIT)
                fs[s[2]] = self._wr(st, fs[s[2]], path, i + 1, new)
                return T_("V", val.a[0], val.a[1], tuple(fs))
            if val.tag == "tup":
                fs = list(val.a[0])
                fs[s[2]] = self._wr(st, fs[s[2]], path, i + 1, new)
                return T_("tup", tuple(fs))
            if val.tag in ("clo", "cor"):
                fs = list(val.a[2])
                fs[s[2]] = self._wr(st, fs[s[2]], path, i + 1, new)
                return T_(val.tag, val.a[0], val.a[1], tuple(fs)) if val.tag == "clo" else T_("cor", val.a[0], val.a[1], tuple(fs), *val.a[3:])
            # opaque or uninitialised: expand
            if shape is None:
                raise EngineLimit("write into %s" % show(val))
            if shape[0] == "adt":
                n = shape[2]
                fs = [UNINIT if val.tag in ("uninit", "moved") else fld(val, s[1], j) for j in range(n)]
                fs[s[2]] = self._wr(st, fs[s[2]], path, i + 1, new)
                return T_("V", shape[1], s[1], tuple(fs))
            n = shape[1]
            fs = [UNINIT if val.tag in ("uninit", "moved") else fld(val, 0, j) for j in range(n)]
            fs[s[2]] = self._wr(st, fs[s[2]], path, i + 1, new)
            return T_("tup", tuple(fs))
        if s[0] == "e":
            segs = list(val.a[1])
            o = segs[s[1]]
            segs[s[1]] = ONE(o.a[0], self._wr(st, o.a[1], path, i + 1, new))
            return COLL(val.a[0], segs, val.a[2], val.a[3])
        raise EngineLimit("write %r" % (s,))

    def shape_of(self, ty, variant):
        if ty.tag == "adt":
            a = self.p.adts.get(ty.a[0])
            if a is None:
                return None
            return ("adt", ty.a[0], len(a["variants"][variant]["fields"]))
        if ty.tag == "tuple":
            return ("tup", len(ty.a[0]))
        return None

    def resolve(self, st, fr, place):
        """[(state, cell, path, type)]"""
        local, proj = place
        cell = self.cell(fr, local)
        path = ()
        ty = self.p.subst(fr.body.ltys[local], fr.genv)
        variant = 0
        cur = [(st, cell, path, ty, 0)]
        for e in proj:
            nxt = []
            for st, cell, path, ty, variant in cur:
                k = e[0]
                if k == "*":
                    v = self.read(st, cell, path)
                    nty = ty.a[0] if ty.tag in ("ref", "ptr") else ty.a[1][0] if ty.tag == "adt" and ty.a[1] else ty
                    if v.tag == "ref":
                        nxt.append((st, v.a[0], v.a[1], nty, 0))
                    else:
                        nxt.append((st, cell, path, nty, 0))
                elif k == "v":
                    nxt.append((st, cell, path, ty, e[1]))
                elif k == ".":
                    fty = self.p.subst(e[2], fr.genv)
                    if ty.tag == "adt" and ty.a[0] == "alloc::boxed::Box":
                        nxt.append((st, cell, path, fty, 0))
                    else:
                        nxt.append((st, cell, path + ((".", variant, e[1], self.shape_of(ty, variant)),), fty, 0))
                elif k in ("[]", "[c]"):
                    coll = self.deref_all(st, self.read(st, cell, path))
                    ety = ty.a[0] if ty.tag in ("slice", "array") else T_("other", "?")
                    if k == "[]":
                        i = st.cells.get(self.cell(fr, e[1]), UNINIT)
                    elif e[3]:
                        i = lsub(LEN(coll), I(e[1]))
                    else:
                        i = I(e[1])
                    for s2, v in self.mod.index(self, st, coll, i):
                        # elements are read-only snapshots: put it into a pseudo cell
                        c2 = T_("tmp", v, ety)
                        s2.cells[c2] = v
                        nxt.append((s2, c2, (), ety, 0))
                elif k == "[..]":
                    coll = self.deref_all(st, self.read(st, cell, path))
                    hi = lsub(LEN(coll), I(e[2])) if e[3] else I(e[2])
                    v = T_("sub", coll, I(e[1]), hi)
                    c2 = T_("tmp", v, ty)
                    st.cells[c2] = v
                    nxt.append((st, c2, (), ty, 0))
                else:
                    raise EngineLimit("place element %r" % (e,))
            cur = nxt
        return [(s, c, pa, t) for s, c, pa, t, _ in cur]

    def read_place(self, st, fr, place, move=False):
        """[(state, value, type)]"""
        out = []
        for s, c, pa, ty in self.resolve(st, fr, place):
            v = self.read(s, c, pa)
            v = self.typed(s, v, ty, c, pa)
            if move and c.tag != "tmp" and ty.tag not in ("int", "bool", "float", "char"):
                if not (v.tag == "ref" or v.tag == "vol"):
                    self.write(s, c, pa, MOVED)
                elif v.tag == "ref":
                    self.write(s, c, pa, MOVED)
            if c.tag == "tmp":
                s.cells.pop(c, None)
            out.append((s, v, ty))
        return out

    def typed(self, st, v, ty, c=None, pa=()):
        k = ty.tag
        if k == "int":
            if v.tag == "dsc":
                return v
            if v.tag not in ("i",):
                if v.tag == "vol":
                    return self.fresh(ty, ("vr", self.curpp, c, pa))
                if ty.a[0].startswith("u"):
                    self.unsigned.add(v)
                return lin_of(v)
        elif k == "float":
            if v.tag == "fld":
                cf = self.constfield(v, pa)
                if cf is not None:
                    return cf
            if v.tag == "vol":
                cf = self.constfield_path(c, pa)
                return cf if cf is not None else self.fresh(ty, ("vr", self.curpp, c, pa))
        elif v.tag == "vol" and pa:
            if k == "adt" and ty.a[0] in self.volatile:
                return T_("vol", ty.a[0])
            return self.fresh(ty, ("vr", self.curpp, c, pa))
        return v

    def constfield(self, v, pa):
        if pa and pa[-1][0] == "." and pa[-1][3] and pa[-1][3][0] == "adt":
            return self.constfields.get((pa[-1][3][1], pa[-1][1], pa[-1][2]))
        return None

    def constfield_path(self, c, pa):
        return self.constfield(None, pa)

    # ---- operands, rvalues ----------------------------------------------------------------------
    def operand(self, st, fr, o, pp):
        """[(state, value)]"""
        k = o["o"]
        if k in ("copy", "move"):
            return [(s, v) for s, v, _ in self.read_place(st, fr, o["p"], k == "move")]
        ty = self.p.subst(o["ty"], fr.genv)
        if "fn" in o:
            return [(st, self.fnref(o, fr))]
        if "v" in o:
            return [(st, self.const(o["v"], ty))]
        if "uneval" in o:
            return self.uneval(st, fr, o, ty, pp)
        if _peel(ty).tag == "str" and o.get("ct", "")[:1] == '"':
            return [(st, S(unescape(o["ct"][1:-1])))]
        if ty.tag == "tuple" and not ty.a[0]:
            return [(st, UNIT)]
        return [(st, self.fresh(ty, pp))]

    def fnref(self, o, fr):
        fid = o.get("rfn") or o["fn"]
        args = o.get("rargs") if "rfn" in o else o.get("args")
        args = tuple(self.p._subst(a, fr.genv) if fr.genv else a for a in (args or ()))
        oargs = tuple(self.p._subst(a, fr.genv) if fr.genv else a for a in (o.get("args") or ()))
        return T_("fn", fid, args, o["fn"], oargs)

    def const(self, v, ty):
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            if ty.tag == "bool":
                return B(v)
            return I(v)
        if "str" in v:
            return S(v["str"])
        if "float" in v:
            return FC(float(v["float"]))
        if "zst" in v:
            if ty.tag == "fndef":
                return T_("fn", ty.a[0], ty.a[1], ty.a[0], ty.a[1])
            if ty.tag == "adt" and ty.a[0] in self.p.adts and len(self.p.adts[ty.a[0]]["variants"]) == 1:
                return T_("V", ty.a[0], 0, ())
            return UNIT
        if "char" in v:
            return T_("ch", str(v["char"]))
        if "bytes" in v:
            return T_("bytes", str(v["bytes"]))
        if "static" in v:
            return T_("static", v["static"])
        return T_("k", str(v))

    def uneval(self, st, fr, o, ty, pp):
        d = o["uneval"]
        if isinstance(d, dict):
            d = d.get("id") or d.get("def")
        if o.get("promoted") is None and d in self.p.bodies:
            r = self.run_fn(st, d, tuple(self.p._subst(a, fr.genv) for a in o.get("args", ())), (), self.fidsub(fr, pp))
            return r
        kc = self.mod.CONSTS.get(self.p.short(d)) if d in self.p.defs else None
        if kc is not None:
            return [(st, kc)]
        return [(st, self.fresh(ty, pp))]

    def fidsub(self, fr, pp):
        return T_("fr", fr.fid if fr is not None else "", pp[1:] if isinstance(pp, tuple) else pp)

    def rvalue(self, st, fr, v, pp, ty):
        k = v["r"]
        if k == "use":
            return self.operand(st, fr, v["a"], pp)
        if k == "ref":
            out = []
            for s, c, pa, t in self.resolve(st, fr, v["p"]):
                val = self.read(s, c, pa)
                if val.tag == "vol":
                    if pa and t.tag == "adt" and t.a[0] in self.volatile:
                        val = T_("vol", t.a[0])
                    elif pa:
                        val = self.typed(s, val, t, c, pa)
                    out.append((s, val))
                    continue
                if v.get("mut"):
                    if c.tag == "tmp":
                        out.append((s, val))   # element of a collection, mutation not tracked
                    elif val.tag == "ref":
                        out.append((s, T_("ref", c, pa)))
                    else:
                        out.append((s, T_("ref", c, pa)))
                else:
                    if c.tag == "tmp":
                        s.cells.pop(c, None)
                    val = self.typed(s, val, t, c, pa)
                    out.append((s, val))
            return out
        if k == "cast":
            out = []
            for s, a in self.operand(st, fr, v["a"], pp):
                out.append((s, self.cast(s, fr, v, a, ty, pp)))
            return out
        if k == "bin":
            out = []
            for s, a in self.operand(st, fr, v["a"], pp):
                for s2, b in self.operand(s, fr, v["b"], pp):
                    aty = self.p.subst(v["ty"], fr.genv)
                    out += self.binop(s2, v["op"], self.deref_all(s2, a), self.deref_all(s2, b), aty, pp)
            return out
        if k == "un":
            out = []
            for s, a in self.operand(st, fr, v["a"], pp):
                a = self.deref_all(s, a)
                op = v.get("op")
                if op == "Not":
                    out.append((s, NOT(a) if a.tag != "i" else self.fresh(ty, pp)))
                elif op == "Neg":
                    if a.tag == "i":
                        out.append((s, lmul(a, -1)))
                    elif a.tag == "fc":
                        out.append((s, FC(-fcv(a))))
                    else:
                        out.append((s, T_("app", S("fneg"), a)))
                elif op == "PtrMetadata":
                    out.append((s, LEN(a)))
                else:
                    out.append((s, self.fresh(ty, pp)))
            return out
        if k == "discr":
            out = []
            for s, val, t in self.read_place(st, fr, v["p"]):
                val = self.deref_all(s, val)
                while t.tag in ("ref", "ptr"):
                    t = t.a[0]
                adt = t.a[0] if t.tag == "adt" else None
                if val.tag == "V":
                    out.append((s, I(self.discr_val(val.a[0], val.a[1]))))
                else:
                    out.append((s, T_("dsc", val, adt)))
            return out
        if k == "agg":
            cur = [(st, ())]
            for o in v["ops"]:
                cur = [(s2, vs + (x,)) for s, vs in cur for s2, x in self.operand(s, fr, o, pp)]
            ak = v["ak"]
            out = []
            for s, vs in cur:
                if ak == "tuple":
                    r = T_("tup", vs)
                elif ak == "array":
                    r = T_("coll", "vec", tuple(ONE(NOKEY, x) for x in vs), I(len(vs)), frozenset())
                elif ak == "adt":
                    if v["id"] in self.volatile:
                        r = T_("vol", v["id"])
                    else:
                        r = T_("V", v["id"], v["variant"], vs)
                        self.on_agg(s, fr, r, pp)
                elif ak == "closure":
                    r = T_("clo", v["id"], tuple(self.p.subst(a, fr.genv) for a in self.cargs(v, ty)), vs)
                else:
                    r = T_("cor", v["id"], tuple(self.p.subst(a, fr.genv) for a in self.cargs(v, ty)), vs)
                out.append((s, r))
            return out
        if k == "repeat":
            return [(s, T_("rep", x)) for s, x in self.operand(st, fr, v["a"], pp)] if "a" in v else [(st, self.fresh(ty, pp))]
        return [(st, self.fresh(ty, pp))]

    def on_agg(self, st, fr, v, pp):
        pass

    def cargs(self, v, ty):
        return ty.a[1] if ty.tag in ("closure", "coroutine") else v.get("args", ())

    def discr_val(self, adt, variant):
        a = self.p.adts.get(adt)
        return a["variants"][variant]["discr"] if a else variant

    def cast(self, st, fr, v, a, ty, pp):
        a = self.deref_all(st, a) if a.tag == "ref" and ty.tag not in ("ref", "ptr") else a
        ck = v["ck"]
        if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Transmute"):
            return a
        if ck == "IntToFloat":
            if isconst(lin_of(a)):
                return FC(float(cval(lin_of(a))))
            return T_("app", S("i2f"), lin_of(a))
        if ck == "IntToInt":
            if a.tag == "dsc":
                return a
            a = lin_of(a)
            if ty.tag == "int":
                lo, hi = INTR.get(ty.a[0], (None, None))
                if lo is not None and self.ent_ge(st, lsub(a, I(lo))) and self.ent_ge(st, lsub(I(hi), a)):
                    return a
                fr_ty = self.p.subst(v["from"], fr.genv)
                if fr_ty.tag == "int" and fr_ty.a[0][0] == "u" and ty.a[0][0] in "ui" and _bits(ty.a[0]) > _bits(fr_ty.a[0]):
                    return a
                if fr_ty.tag == "int" and fr_ty.a[0] in ("usize", "u64") and ty.a[0] in ("u64", "usize"):
                    return a
            return lin_of(T_("app", S("icast"), S(str(ty.a[0])), a))
        if ck == "FloatToInt":
            return lin_of(T_("app", S("f2i"), S(str(ty.a[0])), a))
        if ck == "FloatToFloat":
            return T_("app", S("f2f"), S(str(ty.a[0])), a)
        return self.fresh(ty, pp)

    def binop(self, st, op, a, b, ty, pp):
        k = ty.tag
        if k == "float":
            return self.fbin(st, op, a, b)
        if op in ("Eq", "Ne"):
            if k in ("int", "char") or a.tag == "i" or b.tag == "i":
                if a.tag == "dsc" or b.tag == "dsc":
                    d, c = (a, b) if a.tag == "dsc" else (b, a)
                    r = None
                    if c.tag == "i" and isconst(c) and d.a[1]:
                        for i, vv in enumerate(self.p.adts[d.a[1]]["variants"]):
                            if vv["discr"] == cval(c):
                                r = T_("isd", d.a[0], i, len(self.p.adts[d.a[1]]["variants"]))
                    elif c.tag == "dsc":
                        r = T_("sameDisc", d, c) if d is not c else TRUE
                    p = r if r is not None else self.sym(pp)
                elif a.tag == "ch" or b.tag == "ch":
                    p = B(a is b) if a.tag == b.tag else self.VEQ(st, a, b)
                else:
                    p = EQ0(lsub(a, b))
            else:
                p = self.VEQ(st, a, b)
            return [(st, p if op == "Eq" else NOT(p))]
        if op in ("Lt", "Le", "Gt", "Ge"):
            if k == "int":
                d = {"Lt": ladd(lsub(b, a), I(-1)), "Le": lsub(b, a), "Gt": ladd(lsub(a, b), I(-1)), "Ge": lsub(a, b)}[op]
                return [(st, GE0(d))]
            return [(st, self.sym(pp))]
        if k == "bool":
            if op == "BitXor":
                if b.tag in ("T", "F"):
                    return [(st, NOT(a) if b is TRUE else a)]
                if a.tag in ("T", "F"):
                    return [(st, NOT(b) if a is TRUE else b)]
                out = []
                for s, x in [(s, TRUE) for s in self.split(st, b)[0]] + [(s, FALSE) for s in self.split(st, b)[1]] if False else self._forkb(st, b):
                    out.append((s, NOT(a) if x else a))
                return out
            if op == "BitAnd":
                return [(st, FALSE if a is FALSE or b is FALSE else b if a is TRUE else a if b is TRUE else T_("and", a, b))]
            if op == "BitOr":
                return [(st, TRUE if a is TRUE or b is TRUE else b if a is FALSE else a if b is FALSE else T_("or", a, b))]
        if k == "int":
            if op in ("Add", "AddWithOverflow", "AddUnchecked"):
                r = ladd(a, b)
            elif op in ("Sub", "SubWithOverflow", "SubUnchecked"):
                r = lsub(a, b)
            elif op in ("Mul", "MulWithOverflow", "MulUnchecked"):
                if isconst(lin_of(a)):
                    r = lmul(b, cval(lin_of(a)))
                elif isconst(lin_of(b)):
                    r = lmul(a, cval(lin_of(b)))
                else:
                    r = lin_of(T_("app", S("imul"), lin_of(a), lin_of(b)))
            else:
                if isconst(lin_of(a)) and isconst(lin_of(b)):
                    x, y = cval(lin_of(a)), cval(lin_of(b))
                    try:
                        r = {"Shl": lambda: x << y, "Shr": lambda: x >> y, "BitOr": lambda: x | y, "BitAnd": lambda: x & y, "BitXor": lambda: x ^ y,
                             "Div": lambda: int(math.trunc(x / y)), "Rem": lambda: int(math.fmod(x, y))}[op]()
                        r = I(r)
                    except Exception:
                        r = lin_of(self.sym(pp, "u"))
                    if op.endswith("WithOverflow"):
                        return [(st, T_("tup", (r, FALSE)))]
                    return [(st, r)]
                r = lin_of(T_("app", S("i" + op), lin_of(a), lin_of(b)))
                if ty.a[0].startswith("u"):
                    self.unsigned.add(r.a[1][0][0])
            if op.endswith("WithOverflow"):
                return [(st, T_("tup", (r, self.overflow(st, op, a, b, r, ty))))]
            return [(st, r)]
        return [(st, self.fresh(ty, pp) if op not in ("Cmp",) else self.sym(pp))]

    def overflow(self, st, op, a, b, r, ty):
        lo, hi = INTR.get(ty.a[0], (0, 2 ** 64 - 1))
        if op.startswith("Sub") and lo == 0:
            return GE0(ladd(lsub(b, a), I(-1)))
        if op.startswith("Add") and self.bounded(st, a) and self.bounded(st, b):
            return FALSE
        if op.startswith("Mul") and self.bounded(st, r):
            return FALSE
        if self.ent_ge(st, lsub(I(hi), r)) and self.ent_ge(st, lsub(r, I(lo))):
            return FALSE
        return T_("ovf", r)

    def bounded(self, st, t):
        """a quantity that counts things (lengths, iterations, events): cannot come near the type's limit"""
        return all(self.bounded_atom(st, x) for x, _ in lin_of(t).a[1])

    def bounded_atom(self, st, x):
        if x.tag == "len":
            return True
        if x.tag == "y":
            return "cnt" in x.a[2] or (isinstance(x.a[0], tuple) and x.a[0] and x.a[0][0] in ("n", "b", "phi"))
        if x.tag == "app" and x.a[0].tag == "s" and x.a[0].a[0] == "imul":
            return all(self.bounded(st, y) for y in x.a[1:])
        return self.dom.bounded(st, x) if hasattr(self.dom, "bounded") else False

    def _forkb(self, st, p):
        t, f = self.split(st, p)
        return [(s, True) for s in t] + [(s, False) for s in f]

    def fbin(self, st, op, a, b):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            p = {"Lt": lambda: T_("flt", a, b), "Le": lambda: T_("fle", a, b), "Gt": lambda: T_("flt", b, a), "Ge": lambda: T_("fle", b, a),
                 "Eq": lambda: T_("feq", a, b), "Ne": lambda: NOT(T_("feq", a, b))}[op]()
            if a.tag == "fc" and b.tag == "fc":
                return [(st, B(self.ev(st, p)))]
            return [(st, p)]
        return [(st, self.farith(op, a, b))]

    def farith(self, op, a, b):
        if a.tag == "fc" and b.tag == "fc":
            x, y = fcv(a), fcv(b)
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y, "Rem": lambda: math.fmod(x, y)}[op]()
                return FC(r)
            except (ZeroDivisionError, OverflowError, ValueError):
                return T_("fb", op, a, b)
        if op == "Mul":
            if a.tag == "fc" and fcv(a) == 1.0:
                return b
            if b.tag == "fc" and fcv(b) == 1.0:
                return a
        if op == "Div" and b.tag == "fc" and fcv(b) == 1.0:
            return a
        return T_("fb", op, a, b)

    # ---- control flow ---------------------------------------------------------------------------
    def run_fn(self, st, fnid, genv, args, fid, join=True):
        body = self.p.bodies[fnid]
        fr = Frame(body, fid, genv)
        self.visited[fnid] = self.visited.get(fnid, 0) + 1
        if len(self.stack) > 60:
            raise EngineLimit("call depth")
        for i, a in enumerate(args):
            st.cells[T_("c", fid, i + 1)] = a
        st._k = None
        self.stack.append(fnid)
        try:
            outs, rets, _ = self.run_region(fr, None, 0, [st], None)
        finally:
            self.stack.pop()
        res = []
        for s in rets:
            r = s.cells.get(T_("c", fid, 0), UNIT)
            for c in [c for c in s.cells if c.tag == "c" and c.a[0] is fid]:
                del s.cells[c]
            if r.tag == "ref" and r.a[0].tag == "c" and r.a[0].a[0] is fid:
                r = UNINIT
            res.append((s, r))
        return self.join_res(res) if join else res

    def join_res(self, res):
        """merge states that differ in facts only"""
        by = {}
        for s, r in res:
            by.setdefault((s.ckey(), r), []).append(s)
        out = []
        for k, ss in by.items():
            for s in self.join_some(ss, 24 if len(res) <= 600 else 3):
                out.append((s, k[1]))
        return out

    def join_some(self, ss, cap):
        """keep the disjunction while it is small: only states implied by another one are dropped"""
        seen = {}
        for s in ss:
            seen.setdefault(s.fkey(), s)
        ss = list(seen.values())
        if len(ss) > 1:
            fs = [set(s.facts()) for s in ss]
            keep = []
            for i, s in enumerate(ss):
                if not any(i != j and fs[j] <= fs[i] for j in range(len(ss))):
                    keep.append(s)
            ss = keep
        if len(ss) <= cap:
            return ss
        return [self.join_facts(ss)]

    def join_facts(self, ss):
        if len(ss) == 1:
            return ss[0]
        seen = {}
        for s in ss:
            seen.setdefault(s.fkey(), s)
        ss = list(seen.values())
        if len(ss) == 1:
            return ss[0]
        r = ss[0].copy()
        r.nofacts()
        ts = set()
        for s in ss:
            ts |= set(s.disc) | set(s.nd)
        for t in ts:
            vs = set()
            ok = True
            for s in ss:
                if t in s.disc:
                    vs.add(s.disc[t])
                elif t in s.nd:
                    vs.add(("x", s.nd[t]))
                else:
                    d = self.disc_of(s, t)
                    if d is None:
                        ok = False
                        break
                    vs.add(d)
            if not ok:
                continue
            if len(vs) == 1:
                v = vs.pop()
                if isinstance(v, tuple):
                    r.nd[t] = v[1]
                else:
                    r.disc[t] = v
            else:
                adt = self.adt_hint.get(t)
                pos = set()
                exs = None
                for v in vs:
                    if isinstance(v, tuple):
                        exs = set(v[1]) if exs is None else exs & set(v[1])
                    else:
                        pos.add(v)
                if exs is None:
                    if adt is None:
                        continue
                    exs = set(range(self.p.nvariants(adt)))
                exs -= pos
                if exs:
                    r.nd[t] = frozenset(exs)
        ge = set()
        for e in set().union(*[s.ge for s in ss]):
            if all(e in s.ge or self.ent_ge(s, e) for s in ss):
                ge.add(e)
        r.ge = frozenset(ge)
        for t, v in ss[0].pr.items():
            if all(s.pr.get(t) is v or self.ev(s, t) is v for s in ss[1:]):
                r.pr[t] = v
        for t in set().union(*[set(s.fi) for s in ss]):
            iv = [self.fint(s, t) for s in ss]
            j = (min(x[0] for x in iv), max(x[1] for x in iv), any(x[2] for x in iv))
            if j != (-INF, INF, True):
                r.fi[t] = j
        fo = set()
        for f in ss[0].fo:
            if all(f in s.fo or self.f_le(s, *f) for s in ss[1:]):
                fo.add(f)
        r.fo = frozenset(fo)
        return r

    adt_hint = {}

    def dedupe(self, states):
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        r = list(seen.values())
        if len(r) > 1:
            by = {}
            for s in r:
                by.setdefault(s.ckey(), []).append(s)
            if len(by) < len(r) and len(r) > 6:
                cap = 24 if len(r) <= 600 else 3
                r = [y for x in by.values() for y in self.join_some(x, cap)]
        return r

    def run_region(self, fr, blocks, entry, states, head):
        """returns (outs: {block: states}, returned states, back-edge states)"""
        body = fr.body
        pend = {entry: list(states)}
        outs = {}
        rets = []
        backs = []
        first = True
        while pend:
            b = min(pend, key=lambda x: body.rpo[x])
            ss = self.dedupe(pend.pop(b))
            if not ss:
                continue
            if b in body.loops and not (b == head and first):
                o2, r2 = self.run_loop(fr, b, ss)
                rets += r2
                items = [(t, s) for t, l in o2.items() for s in l]
            else:
                items = []
                for s in ss:
                    for t, s2 in self.exec_block(fr, b, s.copy()):
                        if t == "ret":
                            rets.append(s2)
                        else:
                            items.append((t, s2))
            first = False
            for t, s in items:
                if t == head:
                    backs.append(s)
                elif blocks is not None and t not in blocks:
                    outs.setdefault(t, []).append(s)
                else:
                    pend.setdefault(t, []).append(s)
        return outs, rets, backs

    def exec_block(self, fr, b, st):
        body = fr.body
        bl = body.blocks[b]
        self.steps += 1
        if self.steps > self.limit_steps:
            raise EngineLimit("step budget")
        cur = [st]
        for i, s in enumerate(bl.st):
            k = s["s"]
            if k == "dead":
                for x in cur:
                    x.cells.pop(T_("c", fr.fid, s["l"]), None)
            elif k == "=":
                pp = (fr.fid, b, i)
                self.curpp = pp
                nxt = []
                ty = self.p.subst(s["ty"], fr.genv)
                for x in cur:
                    for x2, v in self.rvalue(x, fr, s["v"], pp, ty):
                        self.assign(x2, fr, s["p"], v, pp)
                        nxt.append(x2)
                cur = nxt
            elif k == "setdiscr":
                raise EngineLimit("setdiscr")
        out = []
        for x in cur:
            out += self.terminator(fr, b, x, bl.tm)
        return out

    def can_redo(self, fr, b):
        """the head of the loop that starts with block b, when the block may be run again as another round"""
        if fr is None:
            return None
        for h in fr.body.loops:
            x = h
            path = [x]
            while x != b and fr.body.blocks[x].tm["t"] == "goto" and len(path) < 5:
                x = fr.body.blocks[x].tm["to"]
                path.append(x)
            if x == b and all(self.repeatable(s) for y in path for s in fr.body.blocks[y].st):
                return h
        return None

    def repeatable(self, s):
        if s["s"] == "=":
            return not s["p"][1] and s["v"]["r"] == "ref"
        return s["s"] != "setdiscr"

    def assign(self, st, fr, place, v, pp):
        for s, c, pa, ty in self.resolve(st, fr, place):
            old = self.read(s, c, pa)
            if old.tag == "vol" and pa:
                continue
            if s is not st:
                raise EngineLimit("forking destination")
            if self.branch_hooks:
                for h in self.branch_hooks:
                    h(self, s, fr, c, pa, old, v, pp)
            self.write(s, c, pa, v)

    def terminator(self, fr, b, st, t):
        k = t["t"]
        pp = (fr.fid, b, "t")
        self.curpp = pp
        if k == "goto":
            return [(t["to"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            return self.switch(fr, b, st, t, pp)
        if k == "drop":
            return [(t["to"], s) for s in self.drop_place(st, fr, t["p"], pp)]
        if k == "assert":
            out = []
            for s, c in self.operand(st, fr, t["a"], pp):
                good, bad = self.split(s, c if t["exp"] else NOT(c))
                for x in bad:
                    self.panic(x, "assert:" + str(t["msg"]), t.get("sp"), c)
                out += [(t["to"], x) for x in good]
            return out
        if k == "call":
            return self.call_term(fr, b, st, t, pp)
        if k == "yield":
            return self.yield_term(fr, b, st, t, pp)
        if k in ("unreachable", "resume", "abort"):
            if k == "unreachable":
                pass
            return []
        if k == "codrop":
            return self.codrop_term(fr, b, st, t, pp)
        raise EngineLimit("terminator " + k)

    def yield_term(self, fr, b, st, t, pp):
        return []

    def codrop_term(self, fr, b, st, t, pp):
        return []

    def feasible(self, st):
        cons = set(st.ge)
        for e in st.ge:
            cons |= self.lin_ctx(st, e)
        return not Lin.unsat(cons)

    def panic(self, st, what, sp=None, scrut=None):
        if self.feasible(st):
            self.event("panic", st, (what, scrut), sp)

    def switch(self, fr, b, st, t, pp):
        out = []
        for s, v in self.operand(st, fr, t["a"], pp):
            v = self.deref_all(s, v)
            if v.tag == "dsc":
                val, adt = v.a
                if adt is None or adt not in self.p.adts:
                    for tv, bb in t["tgts"]:
                        out.append((bb, s.copy()))
                    out.append((t["else"], s.copy()))
                    continue
                self.adt_hint[val] = adt
                dmap = {vv["discr"]: i for i, vv in enumerate(self.p.adts[adt]["variants"])}
                n = len(dmap)
                rest = set(range(n))
                val = self.deref_all(s, val)
                for tv, bb in t["tgts"]:
                    i = dmap.get(tv)
                    if i is None:
                        continue
                    rest.discard(i)
                    s2 = s.copy()
                    if self.set_disc(s2, val, i, n):
                        out.append((bb, s2))
                if rest and fr.body.blocks[t["else"]].tm["t"] != "unreachable" or (rest and fr.body.blocks[t["else"]].st):
                    s2 = s.copy()
                    ok = True
                    for i in range(n):
                        if i not in rest:
                            ok = ok and self.set_ndisc(s2, val, i, n)
                    if ok:
                        out.append((t["else"], s2))
                continue
            if v.tag == "i":
                if isconst(v):
                    for tv, bb in t["tgts"]:
                        if tv == cval(v):
                            out.append((bb, s))
                            break
                    else:
                        out.append((t["else"], s))
                    continue
                rest = [s]
                for tv, bb in t["tgts"]:
                    p = EQ0(lsub(v, I(tv)))
                    nr = []
                    for r in rest:
                        a, c = self.split(r, p)
                        out += [(bb, x) for x in a]
                        nr += c
                    rest = nr
                out += [(t["else"], x) for x in rest]
                continue
            # boolean
            tg = dict((tv, bb) for tv, bb in t["tgts"])
            if self.is_pred(v):
                tb = tg.get(1, t["else"])
                fb = tg.get(0, t["else"])
                a, c = self.split(s, v)
                self.on_branch(fr, b, v, a, c)
                out += [(tb, x) for x in a] + [(fb, x) for x in c]
            else:
                for tv, bb in t["tgts"]:
                    out.append((bb, s.copy()))
                out.append((t["else"], s.copy()))
        return out

    trace = None
    curpp = None

    def on_branch(self, fr, b, p, a, c):
        tr = self.trace
        if tr is not None and tr["fid"] is fr.fid and b in tr["blocks"] and p.tag in ("ge0", "eq0", "not", "T", "F"):
            q = p.a[0] if p.tag == "not" else p
            br = tr.setdefault("br", set())
            if q.tag in ("ge0", "eq0") or b in br:
                br.add(b)
                cell = T_("g", "tr", fr.fid, tr["head"], b)
                tr["cells"].add(cell)
                for s in a:
                    s.cells[cell] = TRUE
                for s in c:
                    s.cells[cell] = FALSE

    def is_pred(self, v):
        return v.tag in ("T", "F", "not", "ge0", "eq0", "flt", "fle", "feq", "veq", "has", "fin", "nan", "isd", "and", "or", "y", "app", "fld", "at", "ovf", "sameDisc", "ne", "pred", "hv", "nondet")

    # ---- drops ----------------------------------------------------------------------------------
    def needs_drop(self, ty, depth=0):
        """does dropping a value of this type run code of this crate?"""
        r = self._nd.get(ty)
        if r is not None:
            return r
        self._nd[ty] = False
        r = False
        if depth > 12:
            r = False
        elif ty.tag == "adt":
            if self.drop_impl(ty) is not None:
                r = True
            elif ty.a[0] in self.p.adts and ty.a[0].startswith("cambrian"):
                for v in self.p.adts[ty.a[0]]["variants"]:
                    for _, ft in v["fields"]:
                        if self.needs_drop(self.p._subst(ft, ty.a[1]), depth + 1):
                            r = True
            else:
                r = any(self.needs_drop(x, depth + 1) for x in ty.a[1] if x.tag in ("adt", "tuple", "closure", "coroutine"))
        elif ty.tag == "tuple":
            r = any(self.needs_drop(x, depth + 1) for x in ty.a[0])
        self._nd[ty] = r
        return r

    _nd = {}

    def drop_impl(self, ty):
        for im in self.p.impls:
            if (im.get("trait") or "").split("::")[-1] == "Drop" and im["self"].tag == "adt" and im["self"].a[0] == ty.a[0]:
                return im["items"].get("drop")
        return None

    def drop_place(self, st, fr, place, pp):
        ty = None
        out = []
        for s, c, pa, ty in self.resolve(st, fr, place):
            v = self.read(s, c, pa)
            if v.tag in ("moved", "uninit", "vol"):
                out.append(s)
                continue
            rs = self.drop_value(s, v, ty, pp)
            for r in rs:
                if not pa and r.cells.get(c) is v:
                    r.cells[c] = MOVED
                    r._k = None
                out.append(r)
        return out

    def drop_value(self, st, v, ty, pp):
        h = self.overrides.get("#drop")
        if h:
            r = h(self, st, v, ty, pp)
            if r is not None:
                return r
        if ty.tag == "adt" and self.needs_drop(ty):
            d = self.drop_impl(ty)
            cur = [st]
            if d is not None and v.tag not in ("moved", "uninit"):
                c = T_("dropcell", T_("fr", "drop", repr(pp[1:])), pp[0])
                st.cells[c] = v
                self.sps.append("drop")
                try:
                    cur = [s for s, _ in self.run_fn(st, d, (), (T_("ref", c, ()),), T_("fr", pp[0], ("drop", pp[1])))]
                finally:
                    self.sps.pop()
                for s in cur:
                    s.cells.pop(c, None)
            return cur
        return [st]

    # ---- calls ----------------------------------------------------------------------------------
    def call_term(self, fr, b, st, t, pp):
        sp = t.get("sp")
        self.sites += 1
        out = []
        dty = self.p.subst(t["dty"], fr.genv)
        cur = []
        for s, f in self.operand(st, fr, t["f"], pp):
            c2 = [(s, f, ())]
            for o in t["args"]:
                c2 = [(s3, f, vs + (x,)) for s2, f, vs in c2 for s3, x in self.operand(s2, fr, o, pp)]
            cur += c2
        atys = [self.p.subst(x, fr.genv) for x in t.get("aty", [])]
        self.sps.append(sp)
        try:
            for s, f, vs in cur:
                res = self.call(s, f, vs, pp, dty, atys, fr, t)
                if t["to"] is None:
                    continue
                for s2, r in res:
                    if r is SKIP:
                        # the element is filtered out: another round of the loop (see can_redo)
                        out.append((self.can_redo(fr, b), s2))
                        continue
                    self.assign(s2, fr, t["dst"], r, pp)
                    out.append((t["to"], s2))
        finally:
            self.sps.pop()
        return out

    def call(self, st, f, args, pp, dty, atys=(), fr=None, t=None):
        """[(state, return value)]"""
        f = self.deref_all(st, f) if f.tag == "ref" and self.deref_all(st, f).tag != "clo" else f
        if f.tag == "ref" or f.tag == "clo":
            return self.call_closure(st, f, args, pp)
        if f.tag != "fn":
            return self.havoc(st, "indirect call", args, dty, pp)
        fnid, genv = f.a[0], f.a[1]
        ofn = f.a[2] if len(f.a) > 2 else fnid
        oargs = f.a[3] if len(f.a) > 3 else genv
        info = CallInfo(fnid, genv, ofn, oargs, dty, atys, pp, fr, t)
        h = self.overrides.get(fnid)
        if h:
            r = h(self, st, args, info)
            if r is not None:
                return r
        df = self.p.defs.get(fnid)
        if df is None:
            return self.havoc(st, fnid, args, dty, pp)
        # constructor functions
        if str(df.get("kind", "")).startswith("Ctor"):
            return [(st, self.ctor(fnid, df, args))]
        key = self.p.short(fnid)
        info.key = key
        h = self.overrides.get(key)
        if h:
            r = h(self, st, args, info)
            if r is not None:
                return r
        if fnid not in self.p.bodies:
            # trait method on a type parameter that is known here
            tr = df.get("trait")
            if tr and genv:
                im = self.p.find_impl(tr, _peel(genv[0]), df.get("method"))
                if im and im[0] in self.p.bodies:
                    fnid = im[0]
                    genv = tuple(x for x in im[1]) + tuple(genv[self.ntrait(tr):])
        if fnid in self.p.bodies:
            cut = self.cut(st, fnid, genv, args, info)
            if cut is not None:
                return cut
            h = self.models.get(key) if not self.p.defs[fnid].get("local") else None
            if h is None and self.derived(fnid):
                h = self.models.get(key)
            if h is not None:
                r = h(self, st, args, info)
                if r is not None:
                    return r
            body = self.p.bodies[fnid]
            if len(args) == 2 and args[1].tag == "tup" and (body.argc != 2 or ofn.startswith("core::ops::function::Fn")):
                args = (args[0],) + args[1].a[0]
            return self.run_fn(st, fnid, genv, args, T_("fr", pp[0], pp[1:] + (fnid,)))
        h = self.models.get(key)
        if h:
            r = h(self, st, args, info)
            if r is not None:
                return r
        return self.havoc(st, key, args, dty, pp)

    def ntrait(self, tr):
        return 1

    def derived(self, fnid):
        """implementation written by a derive macro (Clone, PartialEq, Debug ...)"""
        df = self.p.defs[fnid]
        tr = (df.get("impl_trait") or "").split("::")[-1].split("<")[0]
        return bool(df.get("derived")) or tr in ("Debug", "Display", "Serialize", "Deserialize")

    def cut(self, st, fnid, genv, args, info):
        c = self.contracts.get(fnid)
        if c is not None:
            r = c(self, st, args, info)
            if r is not None:
                return r
        if fnid in self.stack:
            if self.inline_rec and list(self.stack).count(fnid) <= self.inline_rec:
                return None
            self.cuts[fnid] = self.cuts.get(fnid, 0) + 1
            if self.contract_for is not None:
                r = self.contract_for(self, st, fnid, args, info)
                if r is not None:
                    return r
            raise EngineLimit("recursion without contract: " + fnid)
        if self.contract_for is not None and self.p.recursive(fnid) and self.summarise(fnid):
            try:
                return self.contract_for(self, st, fnid, args, info, True)
            except EngineLimit:
                return None
        return None

    def summarise(self, fnid):
        """recursive functions over a specification node are used through their contract from the first call on"""
        b = self.p.bodies[fnid]
        return any(_peel(b.ltys[i + 1]).tag == "adt" and _peel(b.ltys[i + 1]).a[0] == "cambrian::spec::Node" for i in range(b.argc))

    def ctor(self, fnid, df, args):
        a, v = self.p.ctor_of(fnid)
        return T_("V", a, v, tuple(args))

    def call_closure(self, st, f, args, pp):
        """f: closure value or reference to one; args: tuple of argument values (untupled)"""
        c = self.deref_all(st, f)
        if c.tag == "fn":
            return self.call(st, c, args, pp, T_("other", "?"))
        if c.tag != "clo":
            return self.havoc(st, "call of " + show(c), args, T_("other", "?"), pp)
        fnid = c.a[0]
        body = self.p.bodies.get(fnid)
        if body is None:
            return self.havoc(st, fnid, args, T_("other", "?"), pp)
        if body.argc != 1 + len(args) and len(args) == 1 and args[0].tag == "tup":
            args = args[0].a[0]
        h = self.overrides.get(fnid)
        if h:
            r = h(self, st, (c,) + tuple(args), None)
            if r is not None:
                return r
        fid = T_("fr", pp[0], pp[1:] + (fnid,))
        selfty = body.ltys[1]
        tmp = None
        if f.tag == "ref":
            a0 = f
        else:
            tmp = T_("tmpc", fid)
            st.cells[tmp] = c
            a0 = T_("ref", tmp, ())
        if selfty.tag not in ("ref",):
            a0 = c
        r = self.run_fn(st, fnid, c.a[1], (a0,) + tuple(args), fid)
        if tmp is not None:
            for s, _ in r:
                s.cells.pop(tmp, None)
        return r

    def havoc(self, st, what, args, dty, pp):
        """unknown foreign code: mutable arguments lose their value, the result is unconstrained"""
        self.unknown[what] = self.unknown.get(what, 0) + 1
        for i, a in enumerate(args):
            if a.tag == "ref":
                v = self.read(st, a.a[0], a.a[1])
                if v.tag not in ("vol",):
                    self.write(st, a.a[0], a.a[1], self.sym((pp, "hv", i), ("unk", str(what))))
        return [(st, self.fresh(dty, (pp, "r"), str(what)))]

    # ---- loops ----------------------------------------------------------------------------------
    def run_loop(self, fr, head, states):
        """fixpoint over a natural loop; returns (outs, rets)"""
        blocks = fr.body.loops[head]
        live = self.liveness(fr.body, head)

        def prune(s):
            s = s.copy()
            refd = set()
            for c, v in s.cells.items():
                for r in _refs(v):
                    refd.add(r)
            for c in list(s.cells):
                if c.tag == "c" and c.a[0] is fr.fid and c.a[1] not in live and c not in refd:
                    del s.cells[c]
            return s

        def body(ss):
            o, r, backs = self.run_region(fr, blocks, head, ss, head)
            ex = [(t, s) for t, l in o.items() for s in l] + [("ret", s) for s in r]
            return [prune(s) for s in backs], ex

        if fr.body.id in self.unroll:
            outs, rets, cur = {}, [], [prune(s) for s in states]
            mark = dict(self.events[-1])
            for _ in range(8):
                o, r, backs = self.run_region(fr, blocks, head, [s.copy() for s in cur], head)
                for t, l in o.items():
                    outs.setdefault(t, []).extend(l)
                rets += r
                cur = self.dedupe([prune(s) for s in backs])
                if not cur:
                    return outs, rets
            self.events[-1].clear()
            self.events[-1].update(mark)
        lid = ("L", fr.fid, head)
        tb = set()
        nested = set()
        for h, bs in fr.body.loops.items():
            if h != head and h in blocks:
                nested |= bs
        for b in blocks - nested:
            if fr.body.blocks[b].tm["t"] == "switch" and all(x in blocks for x in fr.body.succ[b] if fr.body.blocks[x].tm["t"] != "unreachable"):
                tb.add(b)
        import loops
        ex = loops.fix(self, lid, [prune(s) for s in states], body, dict(fid=fr.fid, head=head, blocks=tb, cells=set()))
        outs = {}
        rets = []
        for t, s in ex:
            if t == "ret":
                rets.append(s)
            else:
                outs.setdefault(t, []).append(s)
        return outs, rets

    _live = {}

    def liveness(self, body, head):
        k = body.id
        r = self._live.get(k)
        if r is None:
            r = self._live[k] = _liveness(self, body)
        return r[head]


class CallInfo:
    __slots__ = ("fn", "genv", "ofn", "oargs", "dty", "atys", "pp", "fr", "t", "key")

    def __init__(self, fn, genv, ofn, oargs, dty, atys, pp, fr, t):
        self.fn = fn
        self.genv = genv
        self.ofn = ofn
        self.oargs = oargs
        self.dty = dty
        self.atys = atys
        self.pp = pp
        self.fr = fr
        self.t = t
        self.key = None


SKIP = T_("skip")

INTR = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1),
        "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1)}


def _bits(n):
    return 64 if n.endswith("size") else int(n[1:])


def _meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]), a[2] and b[2])


def _peel(t):
    while t.tag in ("ref",):
        t = t.a[0]
    return t


def _refs(v):
    if v.tag == "ref":
        yield v.a[0]
        return
    if v.tag in ("V", "tup", "clo", "cor", "coll", "one", "all", "alt", "shuf") or v.tag.startswith("it_"):
        for c in children(v):
            yield from _refs(c)


def _liveness(eng, body):
    n = len(body.blocks)
    use = [set() for _ in range(n)]
    df = [set() for _ in range(n)]

    def mention(o, acc):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == "p" and isinstance(v, tuple):
                    acc.add(v[0])
                    for e in v[1]:
                        if e[0] == "[]":
                            acc.add(e[1])
                elif k not in ("ty", "dty", "aty", "from", "sp"):
                    mention(v, acc)
        elif isinstance(o, (list, tuple)):
            for v in o:
                mention(v, acc)

    for b, bl in enumerate(body.blocks):
        for s in bl.st:
            if s["s"] == "dead":
                df[b].add(s["l"])
                continue
            acc = set()
            if s["s"] == "=":
                mention(s["v"], acc)
                use[b] |= acc - df[b]
                if s["p"][1]:
                    if s["p"][0] not in df[b]:
                        use[b].add(s["p"][0])
                else:
                    df[b].add(s["p"][0])
            else:
                mention(s, acc)
                use[b] |= acc - df[b]
        t = bl.tm
        acc = set()
        if t["t"] == "drop":
            ty = body.ltys[t["p"][0]]
            if eng.needs_drop(ty) or eng.overrides.get("#drop"):
                acc.add(t["p"][0])
        elif t["t"] == "call":
            mention(t["f"], acc)
            mention(t["args"], acc)
            if t["dst"][1]:
                acc.add(t["dst"][0])
        else:
            mention({k: v for k, v in t.items() if k in ("a",)}, acc)
        if t["t"] == "return":
            acc.add(0)
        use[b] |= acc - df[b]
        if t["t"] == "call" and not t["dst"][1]:
            df[b].add(t["dst"][0])
    live = [set() for _ in range(n)]
    ch = True
    order = sorted((b for b in body.rpo), key=lambda x: -body.rpo[x])
    while ch:
        ch = False
        for b in order:
            o = set()
            for s in body.succ[b]:
                o |= live[s]
            x = use[b] | (o - df[b])
            if x != live[b]:
                live[b] = x
                ch = True
    return live
