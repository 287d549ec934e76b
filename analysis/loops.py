"""Fixpoint iteration for loops: states at the loop head are grouped by skeleton and generalised;
varying integers become affine in the iteration counter or fresh head symbols related by inequality
templates and conserved linear sums (kept only while inductive); collections that grow become
bounded comprehensions over the iteration counter."""
from fractions import Fraction
from terms import *
from terms import T_, T
import engine as E
from engine import State, COLL, ONE, ALL, ALT, BV, LEN, bound_level, fact_sub, fact_syms, fact_terms, EngineLimit, INF, FMAX

MAXR = 14


def nsym(eng, lid):
    return T_("y", ("n", lid), eng.idx, ("u",))


def skel_term(t):
    k = t.tag
    if k == "V":
        return ("V", t.a[0], t.a[1], tuple(skel_term(x) for x in t.a[2]))
    if k in ("T", "F", "moved", "uninit", "fn", "cls"):
        return t
    if k == "tup":
        return ("tup", tuple(skel_term(x) for x in t.a[0]))
    if k in ("clo", "cor"):
        return (k, t.a[0], tuple(skel_term(x) for x in t.a[2])) + tuple(x for x in t.a[3:] if not isinstance(x, T))
    if k == "ref":
        return t
    if k == "coll":
        return ("coll", t.a[0])
    if k.startswith("it_"):
        return (k,) + tuple(skel_term(x) if isinstance(x, T) else None for x in t.a)
    return None


def skeleton(eng, st, base):
    """base: cells that are the same in every state are not part of the key"""
    out = []
    for c, v in st.cells.items():
        if c in base:
            continue
        s = skel_term(v)
        if s is None:
            d = st.disc.get(v)
            if d is not None:
                s = ("d", d)
        out.append((c, s))
    out.sort(key=lambda x: x[0].id)
    return tuple(out)


class Group:
    pass


def shift_state(eng, st, m):
    s = State()
    memo = {}
    for c, v in st.cells.items():
        s.cells[c] = tsub(v, m, memo)
    for f in st.facts():
        if any(not fact_syms(f).isdisjoint(m) for _ in (0,)):
            f = fact_sub(f, m, memo)
        add_fact_raw(s, f)
    return s


def add_fact_raw(s, f):
    k = f[0]
    if k == "disc":
        s.disc[f[1]] = f[2]
    elif k == "nd":
        s.nd[f[1]] = f[2]
    elif k == "ge":
        e = f[1]
        if e.tag != "i":
            e = lin_of(e)
        if not isconst(e):
            s.ge = s.ge | {e}
    elif k == "pr":
        s.pr[f[1]] = f[2]
    elif k == "fi":
        s.fi[f[1]] = f[2]
    else:
        s.fo = s.fo | {f[1:]}


def subst_state(eng, st, m):
    return shift_state(eng, st, m)


def holds(eng, st, f):
    k = f[0]
    if k == "ge":
        return eng.ent_ge(st, f[1]) or bool(eng.wits) and witness_holds(eng, st, f[1])
    if k == "disc":
        return eng.disc_of(st, f[1]) == f[2]
    if k == "nd":
        d = eng.disc_of(st, f[1])
        if d is not None:
            return d not in f[2]
        return set(f[2]) <= eng.excl(st, f[1])
    if k == "pr":
        t = f[1]
        if t.tag in ("T", "F"):
            return (t is TRUE) == f[2]
        return eng.ev(st, t) is f[2]
    if k == "fi":
        lo, hi, nan = eng.fint(st, f[1])
        return lo >= f[2][0] and hi <= f[2][1] and (f[2][2] or not nan)
    if k == "fo":
        return eng.f_le(st, f[1], f[2], f[3])
    return False


def witness_holds(eng, st, e):
    """w - x >= 0 for a fixed position w, when w = x - 1 contradicts what is known about that position"""
    for wl in eng.wits:
        w = wl.a[1][0][0]
        if dict(e.a[1]).get(w) != 1 or not eng.ent_ge(st, ladd(e, I(1))):
            continue
        x = ladd(lsub(wl, e), I(-1))
        facts = list(st.facts())
        ps = set()
        for f in facts:
            for t in (f[1:3] if f[0] == "fo" else f[1:2]):
                for k in subterms(t):
                    if k.tag == "kat":
                        q = lin_of(k.a[1])
                        if q is not x and w not in syms(q) and eng.ev(st, E.EQ0(lsub(q, x))) is True:
                            ps.add(q)
        for v in [x] + sorted(ps, key=lambda q: q.id):
            memo = {}
            if eng.mod.apply_facts(eng, State(), [E.fact_sub(f, {w: v}, memo) for f in facts], {}) is None:
                return True
    return False


def unrolled(eng, lid, entries, body):
    """the loop written out, when it ends within a few rounds"""
    idx = eng.idx
    out = []
    cur = eng.dedupe(entries)
    eng.events.append({})
    try:
        for k in range(eng.unroll_all):
            eng.idx = idx + (I(k),)
            cur, exits = body([s.copy() for s in cur])
            out += exits
            if not cur:
                ev = eng.events[-1]
                eng.events[-2].update(ev)
                return out
            cur = eng.dedupe(cur)
    finally:
        eng.idx = idx
        eng.events.pop()
    return None


def fix(eng, lid, entries, body, trace=None):
    """entries: states at the head.  body(states) -> (back states, [(tag, exit state)])"""
    if eng.unroll_all:
        r = unrolled(eng, lid, entries, body)
        if r is not None:
            return r
    n = nsym(eng, lid)
    n_l = lin_of(n)
    mk = (tuple(sorted((s.ckey(), s.fkey()) for s in entries).__repr__() if False else ()),)
    eng_idx = eng.idx
    eng.idx = eng.idx + (n,)
    old_preds = eng.preds
    old_trace = eng.trace
    eng.preds = set()
    eng.trace = trace
    n1 = ladd(n_l, I(-1))
    shift = {n: n1}
    try:
        entries = eng.dedupe(entries)
        clscell = T_("g", "cls", lid)
        classify(eng, entries, clscell)
        # ---- round 0: run from the entry states to see what the body does
        eng.events.append({})
        ent = []
        for s in entries:
            s = s.copy()
            ent.append(s)
        backs, exits = body([s.copy() for s in ent])
        ev = eng.events.pop()
        if not backs:
            # the body never comes back: plain code
            eng.events[-1].update(ev)
            for t, s in exits:
                drop_cls(s, clscell)
            return exits
        groups = None
        closed_off = set()    # slots whose closed form failed
        opaque_off = set()    # collection slots that could not be summarised
        memory = {}           # conserved sums seen in earlier rounds, offered again while shapes settle
        prevfacts = {}
        for rnd in range(MAXR):
            inc = [("e", s) for s in ent] + [("b", shift_state(eng, b, shift)) for b in eng.dedupe(backs)]
            for k, s in inc:
                if k == "b":
                    eng.add_ge(s, n1)
                    if rnd == 0:
                        eng.add_ge(s, lmul(n1, -1))
            newg = generalise(eng, lid, n, inc, groups, rnd, closed_off, opaque_off, eng.preds, memory)
            if groups is not None and same(newg, groups):
                break
            groups = newg
            eng.events.append({})
            eng.preds = set(eng.preds)
            heads = [g.st.copy() for g in groups.values()]
            backs, exits = body(heads)
            ev = eng.events.pop()
            if E.DEBUG and "loops" in E.DEBUG:
                print("round", rnd, lid[1:], "groups", len(groups), "backs", len(backs), "exits", len(exits))
                for g in groups.values():
                    for c, v in g.st.cells.items():
                        if syms(v):
                            print("    ", c, v)
                    for f in g.st.facts():
                        print("       fact", f)
        else:
            raise EngineLimit("loop does not stabilise: %s" % (show(lid[1]) if isinstance(lid[1], T) else str(lid),))
        eng.events[-1].update(ev)
        out = []
        for t, s in exits:
            drop_cls(s, clscell)
            absorb_last(eng, s, n)
            out.append((t, solve_n(eng, s, n)))
        if trace is not None:
            for t, s in out:
                for c in trace["cells"]:
                    s.cells.pop(c, None)
        return out
    finally:
        eng.idx = eng_idx
        eng.preds = old_preds
        if old_preds is not None:
            pass
        eng.trace = old_trace


MAXCLS = 8


def classify(eng, entries, cell):
    """facts known on entry only mention symbols that exist before the loop, so they stay true in it:
    entries with different facts are iterated separately (bounded), instead of losing the facts"""
    if len(entries) < 2:
        return
    for keyf in (lambda s: s.fkey(), lambda s: frozenset(s.disc.items())):
        keys = {}
        for s in entries:
            keys.setdefault(keyf(s), len(keys))
        if 1 < len(keys) <= MAXCLS:
            for s in entries:
                s.cells[cell] = T_("cls", keys[keyf(s)])
                s._k = None
            return
        if len(keys) == 1:
            return


def drop_cls(s, cell):
    if s.cells.pop(cell, None) is not None:
        s._k = None


def absorb_last(eng, st, n):
    """an element appended in the iteration that left the loop joins the comprehension over the
    earlier iterations when it is an instance of it"""
    nl = lin_of(n)
    for c, v in list(st.cells.items()):
        if v.tag != "coll" or len(v.a[1]) < 2:
            continue
        a, x = v.a[1][-2:]
        if a.tag != "all" or x.tag != "one" or a.a[2] is not nl or x.a[0] is not E.NOKEY:
            continue
        P, lo, hi, alts = a.a
        m = {P: nl}
        na = []
        hit = False
        for al in alts:
            if not hit and len(al.a[1]) == 1 and tsub(al.a[1][0], m) is x:
                al = ALT(tuple(f for f in al.a[0] if holds(eng, st, fact_sub(f, m, {}))), al.a[1])
                hit = True
            na.append(al)
        if hit:
            st.cells[c] = COLL(v.a[0], v.a[1][:-2] + (ALL(P, lo, ladd(hi, I(1)), tuple(na)),), v.a[2], v.a[3])
            st._k = None


def solve_n(eng, st, n):
    """if the exit state determines the iteration counter, substitute it"""
    for e in st.ge:
        d = dict(e.a[1])
        k = d.get(n)
        if k in (1, -1) and lmul(e, -1) in st.ge:
            # k*n + rest = 0
            rest = lsub(e, lmul(lin_of(n), k))
            val = lmul(rest, -k)
            if n in syms(val):
                continue
            s = subst_state(eng, st, {n: val})
            return s
    return st


def same(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if a[k].st.key() != b[k].st.key():
            if E.DEBUG and "diff" in E.DEBUG:
                for x, y, nm in ((a, b, "+"), (b, a, "-")):
                    for f in set(x[k].st.facts()) - set(y[k].st.facts()):
                        print("   diff", nm, f)
                    for f in set(x[k].st.cells.items()) - set(y[k].st.cells.items()):
                        print("   diff", nm, f)
            return False
    return True


def generalise(eng, lid, n, inc, old, rnd, closed_off, opaque_off, preds, memory):
    base = {}
    first = inc[0][1]
    for c, v in first.cells.items():
        if all(s.cells.get(c) is v for _, s in inc):
            base[c] = v
    gr = {}
    for k, s in inc:
        gr.setdefault(skeleton(eng, s, base), []).append((k, s))
    if len(gr) > 150:
        raise EngineLimit("too many loop head shapes")
    # keep keys of earlier rounds stable: groups are identified by skeleton incl. base differences
    res = {}
    ctx = Ctx(eng, lid, n, rnd, closed_off, opaque_off)
    ctx.old_all = old
    ctx.inc = inc
    ctx.memory = memory
    ctx.entries = [s for k, s in inc if k == "e"]
    ctx.cur = res
    for key, members in sorted(gr.items(), key=lambda x: all(k == "e" for k, _ in x[1])):
        o = None
        if old is not None:
            o = old.get(key)
            if o is None:
                for k2, g2 in old.items():
                    if compat(k2, key):
                        o = g2
                        break
        res[key] = gen_group(ctx, key, members, o)
    conserved(ctx, inc, res, gr)
    for key, g in res.items():
        add_candidates(ctx, g, gr[key], preds)
    return res


def compat(a, b):
    return dict(a).items() >= dict(b).items() or dict(b).items() >= dict(a).items()


def at_path(v, path):
    for i in path:
        if v.tag == "V" or v.tag in ("clo", "cor"):
            v = v.a[2][i] if isinstance(i, int) and i < len(v.a[2]) else None
        elif v.tag == "tup":
            v = v.a[0][i] if isinstance(i, int) and i < len(v.a[0]) else None
        elif v.tag.startswith("it_"):
            v = v.a[i] if isinstance(i, int) and i < len(v.a) else None
        elif v.tag == "coll" and i == "len":
            v = v.a[2]
        elif v.tag == "bag" and i == "n":
            v = v.a[1]
        else:
            return None
        if not isinstance(v, T):
            return None
    return v


class Ctx:
    entries = ()

    def entry_vals(self, path):
        out = []
        for s in self.entries:
            v = s.cells.get(path[0])
            v = None if v is None else at_path(v, path[1:])
            if v is None or not is_int(v):
                return []
            out.append(v)
        return out

    def uniform(self, path, d):
        """every first iteration, whatever the shape it ends in, changes the slot by d"""
        if self.rnd > 0:
            return True
        es = self.entry_vals(path)
        for k, s in self.inc:
            if k == "b":
                v = s.cells.get(path[0])
                v = None if v is None else at_path(v, path[1:])
                if v is None or not is_int(v):
                    continue
                if not any(lsub(v, e) is d for e in es):
                    return False
        return True

    def moving(self, g, path, t0):
        """a slot of a group without entry states that changed by a constant since the entry"""
        if path in self.closed_off or any(k == "e" for k, _ in g.members):
            return False
        es = self.entry_vals(path)
        return bool(es) and all(e is es[0] for e in es) and isconst(lsub(t0, es[0])) and t0 is not es[0]

    def nested(self, g, path, t0):
        """an iterator whose position may have moved (or is about to, in an entry-only group)"""
        if not t0.tag.startswith("it_"):
            return False
        if all(k == "e" for k, _ in g.members):
            return any(o.moved for o in self.cur.values())
        if any(k == "e" for k, _ in g.members):
            return False
        for s in self.entries:
            v = s.cells.get(path[0])
            v = None if v is None else at_path(v, path[1:])
            if v is None or v is t0 or v.tag != t0.tag:
                return False
        return True

    def moved_coll(self, g, path, t0):
        """a collection of a group without entry states that was appended to since the entry"""
        if path in self.opaque_off or any(k == "e" for k, _ in g.members):
            return False
        es = []
        for s in self.entries:
            v = s.cells.get(path[0])
            v = None if v is None else at_path(v, path[1:])
            if v is None or v.tag != "coll":
                return False
            es.append(v)
        if not es or any(e is not es[0] for e in es) or es[0] is t0 or es[0].a[0] != t0.a[0]:
            return False
        k = len(es[0].a[1])
        if not (len(t0.a[1]) > k and all(x is y for x, y in zip(es[0].a[1], t0.a[1]))):
            return False
        self.entry_pre = k
        return True

    def first_closed(self, g, path, t0):
        """a slot of an entry-only group, in the closed form it has in the later iterations"""
        if path in self.closed_off or any(k != "e" for k, _ in g.members):
            return None
        if not any(o.moved for o in self.cur.values()):
            return None
        for o in self.cur.values():
            x = o.slots.get(path)
            if x is not None and is_int(x[0]) and x[0] is not t0:
                d = dict(x[0].a[1]).get(self.n, 0)
                if d and lsub(x[0], lmul(lin_of(self.n), d)) is t0:
                    return x[0]
        return None

    def __init__(self, eng, lid, n, rnd, closed_off, opaque_off):
        self.eng = eng
        self.lid = lid
        self.n = n
        self.rnd = rnd
        self.closed_off = closed_off
        self.opaque_off = opaque_off


def gen_group(ctx, key, members, old):
    g = Group()
    g.members = members
    g.old = old
    g.phis = {}      # phi symbol -> tuple of terms (one per member)
    g.slots = {}     # int slot path -> (term in G, tuple of member terms)
    g.bytuple = {}
    g.fresh_slots = set()
    g.moved = g.nzero = False
    st = State()
    states = [s for _, s in members]
    cells = set(states[0].cells)
    for s in states[1:]:
        cells &= set(s.cells)
    for c in sorted(cells, key=lambda c: c.id):
        ts = tuple(s.cells[c] for s in states)
        st.cells[c] = lub(ctx, g, (c,), ts, None if old is None else old.st.cells.get(c))
    if g.nzero:
        add_fact_raw(st, ("ge", lmul(lin_of(ctx.n), -1)))
    g.st = st
    return g


def is_int(t):
    return t.tag == "i"


def lub(ctx, g, path, ts, old):
    eng = ctx.eng
    t0 = ts[0]
    if all(t is t0 for t in ts) and not (old is not None and stay_phi(ctx, t0, old)):
        if t0.tag == "coll" and ctx.moved_coll(g, path, t0):
            r = lub_coll(ctx, g, path, ts, old)
            if r is not None:
                g.moved = True
                return r
        if is_int(t0) and ctx.first_closed(g, path, t0):
            r = ctx.first_closed(g, path, t0)
            g.nzero = True
            g.slots[path] = (r, ts)
            return r
        if is_int(t0) and ctx.moving(g, path, t0):
            r = lub_int(ctx, g, path, ts, old)
            g.slots[path] = (r, ts)
            return r
        if is_int(t0):
            g.slots[path] = (t0, ts)
        # an entry-only group must be able to change later
        if not ctx.nested(g, path, t0):
            return t0
    if all(is_int(t) for t in ts):
        r = lub_int(ctx, g, path, ts, old)
        g.slots[path] = (r, ts)
        return r
    k = t0.tag
    if all(t.tag == k for t in ts):
        if k == "V" and all(t.a[:2] == t0.a[:2] and len(t.a[2]) == len(t0.a[2]) for t in ts):
            fs = tuple(lub(ctx, g, path + (i,), tuple(t.a[2][i] for t in ts), old.a[2][i] if old is not None and old.tag == "V" and old.a[:2] == t0.a[:2] and len(old.a[2]) > i else None) for i in range(len(t0.a[2])))
            return T_("V", t0.a[0], t0.a[1], fs)
        if k == "tup" and all(len(t.a[0]) == len(t0.a[0]) for t in ts):
            return T_("tup", tuple(lub(ctx, g, path + (i,), tuple(t.a[0][i] for t in ts), old.a[0][i] if old is not None and old.tag == "tup" and len(old.a[0]) > i else None) for i in range(len(t0.a[0]))))
        if k in ("clo", "cor") and all(t.a[:2] == t0.a[:2] and t.a[3:] == t0.a[3:] for t in ts):
            fs = tuple(lub(ctx, g, path + (i,), tuple(t.a[2][i] for t in ts), old.a[2][i] if old is not None and old.tag == k else None) for i in range(len(t0.a[2])))
            return T_(k, t0.a[0], t0.a[1], fs, *t0.a[3:])
        if k.startswith("it_") and all(len(t.a) == len(t0.a) for t in ts):
            out = []
            for i, x in enumerate(t0.a):
                xs = tuple(t.a[i] for t in ts)
                if all(y is x or (not isinstance(y, T) and y == x) for y in xs):
                    if isinstance(x, T) and is_int(x):
                        x = lub(ctx, g, path + (i,), xs, old.a[i] if old is not None and old.tag == k else None)
                    out.append(x)
                elif all(isinstance(y, T) for y in xs):
                    out.append(lub(ctx, g, path + (i,), xs, old.a[i] if old is not None and old.tag == k else None))
                else:
                    raise EngineLimit("iterator shapes differ at loop head")
            return T_(k, *out)
        if k == "coll" and all(t.a[0] == t0.a[0] for t in ts):
            r = lub_coll(ctx, g, path, ts, old)
            if r is not None:
                return r
        if k == "bag" and all(t.a[0] is t0.a[0] for t in ts):
            return T_("bag", t0.a[0], lub(ctx, g, path + ("n",), tuple(t.a[1] for t in ts), old.a[1] if old is not None and old.tag == "bag" else None))
    return phi(ctx, g, path, ts)


def stay_phi(ctx, t, old):
    """a slot that was generalised before stays generalised: a value of the previous iteration is not
    mistaken for a loop-invariant one"""
    if old.tag == "i":
        if len(old.a[1]) != 1 or old.a[1][0][1] != 1 or old.a[0] != 0:
            return False
        old = old.a[1][0][0]
    if old.tag in ("V", "tup", "clo", "cor", "bag") or old.tag.startswith("it_"):
        return t.tag == old.tag and any(local_to(y, ctx.eng, ctx.n) for y in syms(t))
    if old.tag != "y" or not phi_of(old, ctx.lid):
        return False
    return any(local_to(y, ctx.eng, ctx.n) for y in syms(t))


def phi(ctx, g, path, ts, unsigned=False):
    eng = ctx.eng
    p = g.bytuple.get(ts)
    if p is None:
        attrs = []
        if unsigned:
            attrs.append("u")
        attrs += eng.dom.lub_attrs([s for _, s in g.members], ts)
        if any(any(isinstance(a, tuple) and a[0] == "unk" for s in syms(t) if len(s.a) > 2 for a in s.a[2]) for t in ts):
            attrs.append(("unk", "loop"))
        p = T_("y", ("phi", ctx.lid, path), eng.idx, tuple(attrs))
        g.bytuple[ts] = p
        g.phis[p] = ts
    return p


def lub_int(ctx, g, path, ts, old):
    eng = ctx.eng
    n = lin_of(ctx.n)
    kinds = [k for k, _ in g.members]
    if path not in ctx.closed_off:
        es = [t for k, t in zip(kinds, ts) if k == "e"]
        bs = [t for k, t in zip(kinds, ts) if k == "b"]
        sts = [s for (k, s) in g.members if k == "b"]
        other = not es
        if other:
            es = ctx.entry_vals(path)
        if es and all(e is es[0] for e in es):
            e = es[0]
            cand = None
            if old is not None and is_int(old) and ctx.rnd > 0:
                # keep the previous closed form if it is confirmed
                d = dict(old.a[1]).get(ctx.n, 0)
                if d and lsub(old, lmul(n, d)) is e:
                    cand = d
            elif bs and (ctx.rnd == 0 or (other and old is None)):
                ds = set(lsub(b, e) for b in bs if not other or isconst(lsub(b, e)))
                if len(ds) == 1 and isconst(list(ds)[0]) and ctx.uniform(path, list(ds)[0]):
                    cand = cval(ds.pop())
            if cand:
                v = ladd(e, lmul(n, cand))
                if ctx.rnd == 0 or all(b is v or (eng.ent_ge(s, lsub(b, v)) and eng.ent_ge(s, lsub(v, b))) for s, b in zip(sts, bs)):
                    return v
        ctx.closed_off.add(path)
    lo = all(eng.ent_ge(s, t) for (_, s), t in zip(g.members, ts))
    return lin_of(phi(ctx, g, path, ts, unsigned=lo))


def lub_coll(ctx, g, path, ts, old):
    eng = ctx.eng
    n = lin_of(ctx.n)
    n1 = ladd(n, I(-1))
    if path in ctx.opaque_off:
        return None
    kind = ts[0].a[0]
    segs = [t.a[1] for t in ts]
    m = min(len(s) for s in segs)
    pre = 0
    while pre < m and all(s[pre] is segs[0][pre] for s in segs):
        pre += 1
    if all(t is ts[0] for t in ts):
        pre = min(pre, ctx.entry_pre)
    # never swallow a summary of this loop into the prefix
    for i in range(pre):
        x = segs[0][i]
        if x.tag == "all" and ctx.n in syms(x.a[2]):
            pre = i
            break
    if old is not None and old.tag == "coll":
        # the position of the summary segment is fixed by the previous round
        for i, x in enumerate(old.a[1]):
            if x.tag == "all" and x.a[2] is n:
                pre = min(pre, i)
    alts = []
    level = 0
    parts = []
    for (kd, s), sg in zip(g.members, segs):
        rest = list(sg[pre:])
        if kd == "e":
            if rest:
                ctx.opaque_off.add(path)
                return None
            continue
        prev = ()
        if rest and rest[0].tag == "all" and rest[0].a[1] is I(0) and rest[0].a[2] is n1:
            prev = rest[0]
            rest = rest[1:]
        elif ctx.rnd > 0 and not from_other_entry(ctx, s):
            # the collection was replaced by something else
            if any(True for _ in ()):
                pass
        if any(x.tag == "del" for x in rest):
            ctx.opaque_off.add(path)
            return None
        parts.append((s, prev, rest))
    if ctx.rnd == 0:
        # only the shape is known yet
        r = COLL(kind, segs[0][:pre] + (ALL(BV(1), I(0), n, ()),), lub_int(ctx, g, path + ("len",), tuple(t.a[2] for t in ts), old.a[2] if old is not None and old.tag == "coll" else None), ts[0].a[3])
        g.slots[path + ("len",)] = (r.a[2], tuple(t.a[2] for t in ts))
        return r
    for s, prev, rest in parts:
        for x in rest:
            level = max(level, bound_level(x))
        if prev:
            level = max(level, prev.a[0].a[1][1] - 1)
    P = BV(level + 1)
    got = {}

    skips = []

    def put(facts, items):
        if not items:
            # rounds that add nothing: few different reasons are kept apart
            fs = frozenset(facts)
            if any(x <= fs for x in skips):
                return
            skips[:] = [x for x in skips if not fs <= x] + [fs]
            if len(skips) > 6:
                r = sorted_facts(skips[0])
                for x in skips[1:]:
                    r = meet_facts(eng, r, x)
                skips[:] = [frozenset(r)]
        elif items in got:
            got[items] = meet_facts(eng, got[items], facts)
        else:
            got[items] = list(facts)

    for s, prev, rest in parts:
        if prev:
            q = prev.a[0]
            for a in prev.a[3]:
                if q is not P:
                    a = tsub(a, {q: lin_of(P)})
                put(a.a[0], a.a[1])
        sub = {ctx.n: ladd(lin_of(P), I(1))}
        memo = {}
        items = tuple(tsub(x, sub, memo) for x in rest)
        facts = []
        gold = s
        for f in s.facts():
            sy = fact_syms(f)
            if ctx.n in sy:
                if any(phi_of(y, ctx.lid) for y in sy) and not all(sub_ok(y) for y in sy):
                    pass
                f2 = fact_sub(f, sub, memo)
                facts.append(f2)
        put(facts, items)
    merge_first(P, got)
    merge_skips(P, skips)
    if len(got) + len(skips) > 40:
        ctx.opaque_off.add(path)
        return None
    al = tuple(ALT(sorted_facts(f), i) for i, f in got.items()) + tuple(ALT(sorted_facts(f), ()) for f in skips)
    al = tuple(sorted(al, key=lambda a: a.id))
    if old is not None and old.tag == "coll":
        for x in old.a[1]:
            if x.tag == "all" and x.a[2] is n and x.a[0] is P:
                # keep a stable order and do not oscillate
                if set(x.a[3]) == set(al):
                    al = x.a[3]
    ln = lub_int(ctx, g, path + ("len",), tuple(t.a[2] for t in ts), old.a[2] if old is not None and old.tag == "coll" else None)
    g.slots[path + ("len",)] = (ln, tuple(t.a[2] for t in ts))
    fl = ts[0].a[3]
    for t in ts[1:]:
        fl = fl & t.a[3]
    return COLL(kind, segs[0][:pre] + (ALL(P, I(0), n, al),), ln, fl)


def pinned(P, facts):
    fs = set(facts)
    for f in fs:
        if f[0] == "ge":
            d = dict(f[1].a[1]) if f[1].tag == "i" else {}
            if set(d) == {P} and abs(d[P]) == 1 and any(g[0] == "ge" and g[1] is lmul(f[1], -1) for g in fs):
                return -f[1].a[0] * d[P]
    return None


def merge_skips(P, skips):
    """an empty alternative for one fixed position that is an instance of a general one is merged into it"""
    for x in list(skips):
        c = pinned(P, x)
        if c is None:
            continue
        for y in list(skips):
            if y is x or pinned(P, y) is not None:
                continue
            keep = []
            for f in y:
                g = fact_sub(f, {P: I(c)}, {})
                if g in x or (g[0] == "ge" and isconst(g[1]) and cval(g[1]) >= 0):
                    keep.append(f)
                elif not (f[0] == "ge" and g[0] == "ge" and isconst(g[1])):
                    keep = None
                    break
            if keep is not None:
                skips.remove(x)
                i = skips.index(y)
                z = frozenset(keep)
                skips[:] = [q for q in skips if q is not y and not z <= q] + [z]
                break


def merge_first(P, got):
    """an alternative for one fixed position that is an instance of a general one is merged into it"""
    pl = lin_of(P)
    for it in list(got):
        c = None
        for f in got[it]:
            if f[0] == "ge":
                d = dict(f[1].a[1]) if f[1].tag == "i" else {}
                if set(d) == {P} and abs(d[P]) == 1 and any(g[0] == "ge" and g[1] is lmul(f[1], -1) for g in got[it]):
                    c = -f[1].a[0] * d[P]
        if c is None:
            continue
        for it2 in list(got):
            if it2 is it or it2 == it or len(it2) != len(it) or it not in got:
                continue
            m = {P: I(c)}
            if all(tsub(x, m) is y for x, y in zip(it2, it)):
                have = set(got[it])
                keep = []
                for f in got[it2]:
                    g = fact_sub(f, m, {})
                    if g in have or (g[0] == "ge" and isconst(g[1]) and cval(g[1]) >= 0):
                        keep.append(f)
                got[it2] = keep
                del got[it]


def from_other_entry(ctx, s):
    return False


def phi_of(y, lid):
    return isinstance(y.a[0], tuple) and y.a[0] and y.a[0][0] == "phi" and y.a[0][1] == lid


def sub_ok(y):
    return True


def factkey(f):
    return tuple(x.id if isinstance(x, T) else (tuple(sorted(x)) if isinstance(x, frozenset) else x) for x in f[1:])


def sorted_facts(fs):
    fs = set(fs)
    return tuple(sorted(fs, key=lambda f: (f[0], repr(factkey(f)))))


def meet_facts(eng, a, b):
    """facts common to both lists, with discriminants joined"""
    sb = set(b)
    out = [f for f in a if f in sb]
    have = set(out)
    da = {f[1]: f for f in a if f[0] in ("disc", "nd")}
    db = {f[1]: f for f in b if f[0] in ("disc", "nd")}
    for t, f in da.items():
        h = db.get(t)
        if h is None or f in have:
            continue
        adt = eng.adt_hint.get(t)
        if adt is None:
            continue
        allv = set(range(eng.p.nvariants(adt)))
        pa = {f[2]} if f[0] == "disc" else allv - set(f[2])
        pb = {h[2]} if h[0] == "disc" else allv - set(h[2])
        ex = allv - (pa | pb)
        if ex:
            out.append(("nd", t, frozenset(ex)))
    fa = {f[1]: f[2] for f in a if f[0] == "fi"}
    for f in b:
        if f[0] == "fi" and f[1] in fa and f not in have:
            x, y = fa[f[1]], f[2]
            out.append(("fi", f[1], (min(x[0], y[0]), max(x[1], y[1]), x[2] or y[2])))
    return out


def conserved(ctx, inc, groups, gr):
    """linear equalities over integer slots that every iteration preserves"""
    eng = ctx.eng
    # slots present in every group
    common = None
    for g in groups.values():
        common = set(g.slots) if common is None else common & set(g.slots)
    common = sorted(common or (), key=repr)
    common = [p for p in common if any(isinstance(g.slots[p][0], T) and syms(g.slots[p][0]) and not g.slots[p][0] is g.slots[p][1][0] or True for g in groups.values())]
    # drop slots constant everywhere
    var = []
    for p in common:
        vals = set()
        for g in groups.values():
            vals |= set(g.slots[p][1])
        if len(vals) > 1:
            var.append(p)
    for g in groups.values():
        g.eqs = []
    if ctx.rnd <= 6:
        for vec, tot in ctx.memory.items():
            if all(p in g.slots for g in groups.values() for p, _ in vec):
                offer(groups, vec, tot)
    for g in groups.values():
        affine(ctx, g)
    if not var or len(var) > 40:
        return
    # member vectors ; unknown symbolic parts are matched by atom
    rows = []
    for g in groups.values():
        for i, (k, s) in enumerate(g.members):
            sub = equalities(s)
            rows.append([reduce_eq(g.slots[p][1][i], sub) for p in var])
    for v, tot in combos(ctx, rows, len(var)):
        vec = tuple((p, c) for c, p in zip(v, var) if c)
        offer(groups, vec, tot)
        if ctx.rnd <= 4:
            ctx.memory[vec] = tot


def combos(ctx, rows, nv):
    """integer vectors c with  sum c_p * v_p  the same in every row and free of loop-local symbols"""
    r0 = rows[0]
    eqs = []
    seen = set()
    for r in rows[1:]:
        atoms = {}
        for j, (x, y) in enumerate(zip(r, r0)):
            d = lsub(x, y)
            if d.a[0]:
                atoms.setdefault(None, {})[j] = d.a[0]
            for a, kf in d.a[1]:
                atoms.setdefault(a, {})[j] = kf
        for a, row in atoms.items():
            q = tuple(row.get(j, 0) for j in range(nv))
            if q not in seen:
                seen.add(q)
                eqs.append([Fraction(x) for x in q])
    for v in nullspace(eqs, nv):
        tot = I(0)
        for c, x in zip(v, r0):
            tot = ladd(tot, x, c)
        if any(local_to(y, ctx.eng, ctx.n) or y is ctx.n for y in syms(tot)):
            continue
        yield v, tot


def affine(ctx, g):
    """linear equalities that hold in every state of one group"""
    if len(g.members) < 2 or ctx.rnd > 6:
        return
    var = [p for p in sorted(g.slots, key=repr) if len(set(g.slots[p][1])) > 1]
    if not var or len(var) > 40:
        return
    rows = []
    for i, (k, s) in enumerate(g.members):
        sub = equalities(s)
        rows.append([reduce_eq(g.slots[p][1][i], sub) for p in var])
    for v, tot in combos(ctx, rows, len(var)):
        e = lmul(tot, -1)
        for c, p in zip(v, var):
            if c:
                e = ladd(e, g.slots[p][0], c)
        if not isconst(e) and e not in g.eqs:
            g.eqs.append(e)


def offer(groups, vec, tot):
    for g in groups.values():
        e = lmul(tot, -1)
        for p, c in vec:
            e = ladd(e, g.slots[p][0], c)
        if not isconst(e) and e not in g.eqs:
            g.eqs.append(e)


def equalities(s):
    """linear equalities among the facts of a state, in solved form: [(atom, coefficient, rest)]"""
    out = []
    for e in sorted(s.ge, key=lambda e: e.id):
        m = lmul(e, -1)
        if m not in s.ge or e.id > m.id:
            continue
        e = reduce_eq(e, out)
        if isconst(e):
            continue
        # keep unit coefficients so that everything stays integral
        a = next(((a, k) for a, k in sorted(e.a[1], key=lambda x: -x[0].id) if abs(k) == 1), None)
        if a is None:
            continue
        a, k = a
        out = [(b, reduce_eq(r, [(a, lmul(lsub(e, lmul(lin_of(a), k)), -k))])) for b, r in out]
        out.append((a, lmul(lsub(e, lmul(lin_of(a), k)), -k)))
    return out


def reduce_eq(t, sub):
    for a, r in sub:
        k = dict(t.a[1]).get(a)
        if k:
            t = ladd(lsub(t, lmul(lin_of(a), k)), r, k)
    return t


def nullspace(rows, n):
    m = [r[:] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        x = m[r][c]
        m[r] = [y / x for y in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        den = 1
        for x in v:
            den = den * x.denominator // _gcd(den, x.denominator)
        out.append([int(x * den) for x in v])
    return out


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def add_candidates(ctx, g, members, preds):
    eng = ctx.eng
    st = g.st
    n = ctx.n
    states = [s for _, s in members]
    kinds = [k for k, _ in members]
    cand = set()
    phis = list(g.phis)
    # mapping phi -> member term
    maps = [{p: g.phis[p][i] for p in phis} for i in range(len(members))]
    maps = [dict(m) for m in maps]
    for m, k in zip(maps, kinds):
        if k == "e":
            m[n] = I(0)
    visible = set()
    for v in st.cells.values():
        visible |= syms(v)
    if all(k == "e" for k in kinds):
        cand.add(("ge", lmul(lin_of(n), -1)))
    fresh = g.old is None or ctx.rnd <= 4
    oldphis = set(g.old.phis) if g.old is not None else set()
    # (a) the previous head's facts
    if g.old is not None:
        for f in g.old.st.facts():
            cand.add(f)
    # (b) facts of the members, generalised
    if True:
        for i, s in enumerate(states):
            inv = {}
            for p in phis:
                t = g.phis[p][i]
                if t.tag != "i" and t.tag not in ("fc", "s", "T", "F", "V", "tup", "coll"):
                    inv.setdefault(t, p)
                elif t.tag == "i" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[1][0][0].tag != "n":
                    inv.setdefault(t.a[1][0][0], p)
            if not fresh and i > 0:
                break
            for f in s.facts():
                f0 = f
                if not fresh and f0 not in cand:
                    continue
                if g.old is not None and f not in cand and f[0] == "ge" and f[1].tag == "i" and len(f[1].a[1]) == 1 and f[1].a[1][0] == (n, -1):
                    continue    # a constant bound on the number of rounds that has just been overtaken
                cand.add(f)
                if inv and not fact_syms(f).isdisjoint(set().union(*[syms(x) | {x} for x in inv])):
                    f2 = rep_fact(f, inv)
                    if f2 is not f:
                        cand.add(f2)
    # (c) templates
    newphi = [p for p in phis if p not in oldphis]
    ints = [p for p in phis if any(is_int(t) for t in g.phis[p])]
    if fresh or newphi:
        terms = [lin_of(p) for p in ints] + [lin_of(n)]
        new = terms if fresh else [lin_of(p) for p in newphi if p in ints]
        for a in new:
            if a is not lin_of(n):
                cand.add(("ge", a))
            for b in terms:
                if a is not b:
                    cand.add(("ge", lsub(a, b)))
                    cand.add(("ge", lsub(b, a)))
        # loop-invariant quantities the members are compared with
        inv_syms = set()
        for s in states:
            for e in s.ge:
                for a, _ in e.a[1]:
                    if a is n or any(y is n or local_to(y, eng, n) or phi_of(y, ctx.lid) for y in syms(a)):
                        continue
                    if a.tag in ("y", "fld", "len"):
                        inv_syms.add(a)
        if len(inv_syms) <= 16:
            for a in new:
                for b in inv_syms:
                    if a is not lin_of(n):
                        cand.add(("ge", lsub(a, lin_of(b))))
                        cand.add(("ge", lsub(lin_of(b), a)))
                        cand.add(("ge", ladd(lsub(lin_of(b), a), I(-1))))
        hs = visible | set(phis) | {n}
        for e in preds or ():
            if syms(e) and not any(local_to(y, eng, n) and y not in hs for y in syms(e)):
                forms = [e]
                # predicates were recorded with the head values of the previous round
                for f in forms:
                    for x in (f, lmul(f, -1)):
                        for d in (0, 1, -1):
                            cand.add(("ge", ladd(x, I(d))))
        for p in phis:
            if p in ints:
                continue
            if "pop" in p.a[2]:
                cand.add(("ge", ladd(LEN(p), I(-1))))
                for t in g.phis[p]:
                    for q in (lin_of(n), lmul(lin_of(n), -1)):
                        d = lsub(ladd(LEN(p), q), LEN(t))
                        cand.add(("ge", d))
                        cand.add(("ge", lmul(d, -1)))
            iv = [eng.fint(s, m[p]) for s, m in zip(states, maps)] if all(floaty(m[p]) for m in maps) else None
            if iv:
                if ctx.rnd <= 2:
                    j = (min(x[0] for x in iv), max(x[1] for x in iv), any(x[2] for x in iv))
                else:
                    j = (0.0 if min(x[0] for x in iv) >= 0 else -FMAX if min(x[0] for x in iv) > -INF else -INF,
                         1.0 if max(x[1] for x in iv) <= 1 else FMAX if max(x[1] for x in iv) < INF else INF, any(x[2] for x in iv))
                if j != (-INF, INF, True):
                    cand.add(("fi", p, j))
    if fresh:
        # the hull of what the members know about the same value
        for t in states[0].fi:
            if t in phis or not all(t in s.fi for s in states):
                continue
            iv = [s.fi[t] for s in states]
            j = (min(x[0] for x in iv), max(x[1] for x in iv), any(x[2] for x in iv))
            if ctx.rnd > 2:
                j = (0.0 if j[0] >= 0 else -FMAX if j[0] > -INF else -INF, 1.0 if j[1] <= 1 else FMAX if j[1] < INF else INF, j[2])
            if j != (-INF, INF, True):
                cand.add(("fi", t, j))
    for e in g.eqs:
        cand.add(("ge", e))
        cand.add(("ge", lmul(e, -1)))
    for w in eng.wits:
        for a in [lin_of(p) for p in ints] + [lin_of(n)]:
            cand.add(("ge", lsub(w, a)))
    # filter
    good = []
    for f in cand:
        sy = fact_syms(f)
        if any(local_to(y, eng, n) and y not in visible and y is not n and y not in g.phis for y in sy):
            continue
        ok = True
        for s, m, k in zip(states, maps, kinds):
            f2 = fact_sub(f, m, {})
            if f2[0] == "ge" and f2[1].tag != "i":
                f2 = ("ge", lin_of(f2[1]))
            if not holds(eng, s, f2):
                ok = False
                break
        if ok:
            good.append(f)
    for f in good:
        if f[0] == "ge":
            if isconst(f[1]) or f[1] is lin_of(n):
                continue
            if any(isconst(lsub(h, f[1])) and cval(lsub(f[1], h)) > 0 for h in st.ge):
                continue
        if f[0] == "fi" and f[1] in st.fi:
            f = ("fi", f[1], E._meet(f[2], st.fi[f[1]]))
        add_fact_raw(st, f)
    # drop inequalities implied by the others (keeps states comparable)
    reduce_ge(eng, st)
    g.st = st


def reduce_ge(eng, st):
    ge = sorted(st.ge, key=lambda e: (len(e.a[1]), e.id))
    keep = list(ge)
    if len(ge) > 40:
        return
    eq = set(e for e in ge if lmul(e, -1) in st.ge)
    for e in sorted(ge, key=lambda e: (-len(e.a[1]), -e.id)):
        if e in eq:
            continue
        rest = [x for x in keep if x is not e]
        s2 = State()
        s2.ge = frozenset(rest)
        s2.disc = st.disc
        s2.pr = st.pr
        if eng.ent_ge(s2, e):
            keep = rest
    st.ge = frozenset(keep)


def floaty(t):
    return t.tag in ("fc", "fb") or (t.tag == "app" and t.a[0].tag == "s" and t.a[0].a[0] in E_FLOATAPP) or t.tag in ("y", "fld", "at")


E_FLOATAPP = {"round", "fmin", "fmax", "clamp", "powf", "i2f", "fneg", "fabs"}


def local_to(y, eng, n):
    """symbol created inside the current loop"""
    return y is not n and len(y.a) > 1 and n in [x for x in y.a[1] if isinstance(x, T)] or (len(y.a) > 1 and any(isinstance(x, T) and n in syms(x) for x in y.a[1]))


def rep_fact(f, inv):
    memo = {}

    def rt(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in inv:
            r = inv[t]
        elif t.tag == "i":
            r = I(t.a[0])
            for x, k in t.a[1]:
                r = ladd(r, rt(x), k)
        elif t.tag in ("y", "s", "fc"):
            r = t
        else:
            a = tuple(ra(x) for x in t.a)
            r = t if a == t.a else renorm(t.tag, a)
        memo[t] = r
        return r

    def ra(x):
        if isinstance(x, T):
            return rt(x)
        if isinstance(x, tuple):
            return tuple(ra(y) for y in x)
        return x

    if f[0] == "fo":
        return ("fo", rt(f[1]), rt(f[2]), f[3])
    t = rt(f[1])
    return f if t is f[1] else (f[0], t) + f[2:]
