"""Rules over the reader of specification documents (C10)."""
from terms import *
from terms import T_, T
import engine as E
import prog as P
import yspec
from yspec import *
from engine import *
from engine import SOME
from nodes import tainted
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED
from rules_ops import short

ENTRY = "cambrian::spec_util::from_yaml_str"


def nm(k):
    return k if k is not None else "(none)"


def analysis(ctx):
    def go():
        p = ctx.p
        an = Reader(p)
        res = {"an": an, "miss": ENTRY not in p.bodies, "results": [], "reject": [], "entry": None}
        if res["miss"]:
            return res
        res["entry"] = an.entry(ENTRY)
        res["entry_calls"] = list(an.calls)
        an.calls = []
        if an.reader is None:
            return res
        kinds = list(KINDS) + [None, "some definition"]
        for k in kinds:
            def prep(e, st, y, m, k=k):
                an.typed(e, st, y, m, k)
                if k == "some definition":
                    notbuiltin(an, e, st, m)
            res["results"].append((k, an.run(nm(k), prep)))
        # documents that must be rejected
        rej = []
        for v in ("Null", "Bool", "Number", "String", "Sequence"):
            rej.append(("not-a-mapping/" + v, "a document that is a %s" % v.lower(), lambda e, st, y, m, v=v: st.disc.__setitem__(y, an.V[v])))
        for k in kinds:
            def nontext(e, st, y, m, k=k):
                an.typed(e, st, y, m, k)
                if k == "some definition":
                    notbuiltin(an, e, st, m)
                w, key, t = an.witness(e, st, m, False)
                st.nd[key] = frozenset([an.V["String"]])
            rej.append(("key/" + nm(k), "an attribute of a %s whose name is not a string" % nm(k), nontext))
            al = ALLOWED.get(k) if k != "some definition" else ("type",)
            if al is None:
                continue

            def unknown(e, st, y, m, k=k, al=al):
                an.typed(e, st, y, m, k)
                if k == "some definition":
                    notbuiltin(an, e, st, m)
                w, key, t = an.witness(e, st, m)
                for x in al:
                    st.pr[e.VEQ(st, t, S(x))] = False
            rej.append(("unknown/" + nm(k), "an attribute of a %s that does not exist" % nm(k), unknown))
        for b in KINDS:
            def builtin(e, st, y, m, b=b):
                an.typed(e, st, y, m, None)
                w, key, t = an.witness(e, st, m)
                st.pr[T_("pred", S("str::starts_with"), t, S(DEFKEY))] = True
                st.pr[e.VEQ(st, T_("app", S("str::strip_prefix"), t, S(DEFKEY)), S(b))] = True
            rej.append(("builtin/" + b, "a type definition with the name of the built-in type %s" % b, builtin))

        def equal(e, st, y, m):
            an.typed(e, st, y, m, "enum")
            n = lin_of(T_("y", "nvals", (), ("u",)))
            c = T_("y", "theval", (), ())
            b = T_("b", "ev")
            e.given = {T_("at", m, S("values")): V(YAML, an.V["Sequence"], COLL("vec", (E.ALL(bvar(), I(0), n, (T_("alt", (), (E.ONE(E.NOKEY, V(YAML, an.V["String"], c)),)),)),), n))}
        rej.append(("enum-values", "an enum whose values are all the same", equal))
        for name, text, prep in rej:
            res["reject"].append((name, text, an.run(name, prep)))
        # every parameter is kept
        comp = []
        for k, skip in (("sub", ("type",)), (None, ("type",)), ("variant", ("type", "init"))):
            def member(e, st, y, m, k=k, skip=skip):
                an.typed(e, st, y, m, k)
                w, key, t = an.witness(e, st, m)
                for x in skip:
                    st.pr[e.VEQ(st, t, S(x))] = False
                if k != "variant":
                    st.pr[T_("pred", S("str::starts_with"), t, S(DEFKEY))] = False
                e.thewit = (key, t)
            comp.append((k, an.run("member/" + nm(k), member)))
        res["members"] = comp
        ctx.count("engine_steps", sum(e.steps for _, e in an.engines))
        ctx.count("spec_reader_runs", len(an.engines))
        return res
    return ctx.once("yspec", go)


def bvar():
    return T_("y", ("b", "given"), (), ("u",))


def notbuiltin(an, e, st, m):
    x = fld(T_("at", m, S("type")), an.V["String"], 0)
    for b in KINDS:
        st.pr[e.VEQ(st, x, S(b))] = False


def st_of(*ts):
    return UNDECIDED if any(tainted(t) for t in ts if isinstance(t, T)) else BAD


@rule("spec-reader", "C10", "abstract interpretation of from_yaml_str over arbitrary documents, one kind of node at a time: accepted nodes are well-formed and the ones declared, definitions are scoped, everything else is rejected, nothing panics")
def _(ctx, prop):
    res = analysis(ctx)
    an = res["an"]
    if res["miss"]:
        yield Ob("spec/entry", UNDECIDED, "entry point %s not found" % ENTRY)
        return
    for name, msg, stk in an.limits:
        yield Ob("spec/limit/%s" % name, UNDECIDED, "%s: analysis gave up: %s" % (name, msg[:200]), short(stk[-1]) if stk else "")
    if an.reader is None:
        yield Ob("spec/reader", UNDECIDED, "no recursive function reads the document")
        return
    for name, e in an.engines:
        yield Ob("spec/panic/%s" % name, GOOD, "no panic is reachable when a document is read (%s)" % name)
    for name, ev in an.panics:
        d = ev.data
        yield Ob("spec/panic/%s" % short(ev.fn), st_of(*[x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []), "panic reachable while a document is read: %s (%s)" % (d[0] if isinstance(d, tuple) and d else d, name), ev.sp)
    # the entry point
    e, outs = res["entry"]
    for s, ok, x in outs:
        if not ok:
            continue
        b = x.a[2][0] if x.tag == "V" and x.a[0] == SPEC else None
        y = attr(e.deref_all(s, b), "built") if b is not None else None
        good = y is not None and y.tag == "app" and y.a[0] is S("parsed")
        yield Ob("spec/entry", GOOD if good else st_of(x), "the specification is what is read from the parsed document", short(ENTRY), show(x)[:200])
    for name, e, ev in res["entry_calls"]:
        y, d = ev.data
        empty = e.ev(ev.st, EQ0(LEN(d))) is True
        yield Ob("spec/entry/scope", GOOD if empty else st_of(d), "reading starts with no definitions in scope", short(ENTRY), show(d)[:200])
    V = an.V
    for k, outs in res["results"]:
        acc = 0
        for e, st, y, m, d, ok, x in outs:
            if not ok:
                continue
            acc += 1
            why = Check(an, k if k != "some definition" else "some definition").result(e, st, m, d, x)
            yield Ob("spec/node/%s%s" % (nm(k), "/" + why[0][0] if why else ""), GOOD if not why else st_of(x, why[0][1]), "an accepted node of type %s is well-formed and the one declared%s" % (nm(k), ": " + why[0][0] if why else ""), short(an.reader), show(why[0][1])[:200] if why else "")
        if not acc and outs:
            yield Ob("spec/accepts/%s" % nm(k), BAD, "no document of type %s is accepted" % nm(k))
    doc = T_("y", "doc", (), ("yaml",))
    m = fld(doc, V["Mapping"], 0)
    d0 = T_("y", "defs", (), ("specmap", "map", ("scope0", 1)))
    done = set()
    for name, e, ev in an.calls:
        k = {nm(x): x for x, _ in res["results"]}.get(name, "?")
        if k == "?":
            continue
        why = Check(an, k).scope(e, ev, m, d0)
        yield Ob("spec/scope/%s/%s%s" % (name, short(ev.fn), "/" + why[0][0] if why else ""), GOOD if not why else st_of(why[0][1]), "nested nodes of a %s are read with exactly the definitions in scope%s" % (name, ": " + why[0][0] if why else ""), "%s (%s)" % (short(ev.fn), ev.sp), show(why[0][1])[:200] if why else "")
    for name, text, outs in res["reject"]:
        acc = [o for o in outs if o[5]]
        yield Ob("spec/reject/%s" % name, GOOD if not acc else st_of(*[o[6] for o in acc]), "%s is rejected" % text, short(an.reader), show(acc[0][6])[:200] if acc else "")
    for k, outs in res["members"]:
        for e, st, y, m, d, ok, x in outs:
            if not ok:
                continue
            why = member_kept(an, e, st, m, x, "Sub" if k != "variant" else "Variant")
            yield Ob("spec/member/%s" % nm(k), GOOD if not why else st_of(x), "every declared parameter of a %s is present with its own definition%s" % (nm(k), ": " + why if why else ""), short(an.reader), show(x)[:200] if why else "")
    yield from expansion(an, res)


def member_kept(an, e, st, m, x, k):
    x = e.deref_all(st, x)
    if x.tag != "V" or x.a[0] != SN or x.a[1] != e.dom.ix[k]:
        return None     # (reported elsewhere)
    key, t = e.thewit
    mp = e.deref_all(st, e.dom.sf(x, k, "map"))
    for s, v in e.mod.lookup(e, st.copy(), mp, t):
        if v is None:
            return "a declared parameter is missing"
        y = attr(e.deref_all(s, v), "built")
        if y is None or y.tag != "at" or y.a[0] is not m or e.keq(s, text_of(an, y) if text_of(an, y) is not None else y.a[1], t) is not True:
            return "a parameter has another definition"
    return None


def expansion(an, res):
    b = an.p.bodies[an.reader]
    tys = [b.ltys[i + 1] for i in range(b.argc)]
    budget = any(E._peel(t).tag == "int" or E._peel(t).tag == "adt" and E._peel(t).a[0].startswith("cambrian") for t in tys)
    outs = [o for k, os in res["results"] if k == "some definition" for o in os if o[5]]
    clones = [o for o in outs if o[6].tag == "at" and o[6].a[0] is o[4]]
    if clones and not budget:
        yield Ob("spec/typedef-expansion", BAD, "definitions are expanded by copying, without a limit on the total size: nested definitions grow exponentially", short(an.reader))
    else:
        yield Ob("spec/typedef-expansion", GOOD, "the expansion of definitions is limited", short(an.reader))
