"""Rules over the JSON codec of values and the initial guess (C11), and over initial values (C01, C10)."""
import json, os, subprocess
from terms import *
from terms import T_, T
import engine as E
import prog as P
import extract
import codec
from codec import JSON, TOJSON
from engine import *
from nodes import VAL, VN, SPEC, SN, NAMES, check_conf, tainted
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED
from rules_ops import same_value, short


def entries(p):
    r = "cambrian::value_util::from_json_value"
    w = P.method(p, VAL, "to_json")
    i = P.method(p, SPEC, "initial_value")
    miss = [n for n, f in (("value_util::from_json_value", r if r in p.bodies else None), ("Value::to_json", w), ("Spec::initial_value", i)) if f is None]
    return r, w, i, miss


def analysis(ctx, mode):
    def go():
        p = ctx.p
        r, w, i, miss = entries(p)
        res = {"limits": [], "panics": [], "problems": [], "outs": {}, "inits": [], "unknown": [], "names": [], "miss": miss, "entries": (r, w, i)}
        if miss:
            return res
        pats = ()
        for rnd in range(3):
            todo = []
            outs = {}
            ans = []
            for k in NAMES:
                an = codec.Codec(p, mode)
                ans.append(an)
                outs[k] = an.run(k, r, w, i, pats)
                if mode == "read" and k == "Sub":
                    res["unknown"] = an.run(k, r, pats=pats, unknown=True)
                todo += [x for x in an.patterns() if x not in todo]
            if all(x in pats for x in todo):
                break
            pats = tuple(pats) + tuple(x for x in todo if x not in pats)
        for an in ans:
            res["limits"] += an.limits
            res["panics"] += an.panics
            res["problems"] += an.problems
            res["inits"] += an.inits
            res["names"] += [n for n, _ in an.engines]
            ctx.count("engine_steps", sum(e.steps for _, e in an.engines))
        res["outs"] = outs
        ctx.count("codec_outcomes", sum(len(o) for o in outs.values()))
        return res
    return ctx.once(("codec", mode), go)


def common(res, what):
    for m in res["miss"]:
        yield Ob("%s/entry/%s" % (what, m), UNDECIDED, "entry point %s not found" % m)
    for name, msg, stk in res["limits"]:
        yield Ob("%s/limit/%s" % (what, name.split()[0]), UNDECIDED, "%s: analysis gave up: %s" % (name, msg[:200]), short(stk[-1]) if stk else "")
    for where, pr, stk, sp in res["problems"]:
        yield Ob("%s/%s/%s" % (what, short(where), pr.what), UNDECIDED if pr.taint else BAD, "%s: %s" % (short(where), pr.what), "%s (%s)" % (short(stk[-1]) if stk else "", sp), show(pr.term)[:300])


def panics(res, what, text):
    for name in res["names"]:
        yield Ob("%s/panic/%s" % (what, name.split()[0]), GOOD, "%s: no panic is reachable for a %s specification node" % (text, name.split()[0]))
    for name, ev in res["panics"]:
        d = ev.data
        t = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
        yield Ob("%s/panic/%s/%s" % (what, short(ev.fn), d[0] if isinstance(d, tuple) and d else d), UNDECIDED if any(tainted(x) for x in t) else BAD, "%s: panic reachable in %s: %s" % (text, short(ev.fn), d[0] if isinstance(d, tuple) and d else d), ev.sp)


def st_of(*ts):
    return UNDECIDED if any(tainted(t) for t in ts if isinstance(t, T)) else BAD


@rule("codec-read", "C11 C01", "abstract interpretation of from_json_value over an arbitrary JSON document and specification node: whatever is accepted conforms, and is what the document says")
def _(ctx, prop):
    res = analysis(ctx, "read")
    yield from common(res, "read")
    if prop == "C11":
        yield from panics(res, "read", "reading a guess")
    for k, outs in res["outs"].items():
        n = 0
        for name, e, st, kind, s, w, j, ok, x in outs:
            if not ok:
                continue
            n += 1
            prs = check_conf(e, st, x, s)
            yield Ob("read/conforms/%s" % k, GOOD if not prs else UNDECIDED if any(q.taint for q in prs) else BAD, "an accepted %s conforms to its specification%s" % (k, ": " + prs[0].what if prs else ""), name, show(prs[0].term)[:200] if prs else "")
            if prop == "C11":
                why = codec.faithful(e, st, x, j, s) if not prs else []
                yield Ob("read/faithful/%s" % k, GOOD if not why else st_of(x), "an accepted %s is the one in the document%s" % (k, ": " + why[0] if why else ""), name, show(x)[:200] if why else "")
        if not n and not res["limits"]:
            yield Ob("read/accepts/%s" % k, BAD, "no document at all is accepted for a %s" % k)
    if prop == "C11" and res["outs"]:
        acc = [o for o in res["unknown"] if o[7]]
        yield Ob("read/unknown-key", GOOD if not acc else st_of(*[o[8] for o in acc]), "an object with a key that the sub does not declare is never accepted", acc[0][0] if acc else "")


@rule("codec-roundtrip", "C11", "abstract interpretation by induction over the value: writing a conforming value and reading it back succeeds and writes the same document again")
def _(ctx, prop):
    res = analysis(ctx, "rt")
    yield from common(res, "roundtrip")
    yield from panics(res, "roundtrip", "writing a value and reading it back")
    w = res["entries"][1]
    for k, outs in res["outs"].items():
        for name, e, st, kind, s, v, j, ok, x in outs:
            if not ok:
                yield Ob("roundtrip/accepted/%s" % k, st_of(j, x), "a written %s is accepted when it is read back: %s" % (k, show(x)[:100]), name)
                continue
            yield Ob("roundtrip/accepted/%s" % k, GOOD, "a written %s is accepted when it is read back" % k, name)
            try:
                why = []
                for s2, j2 in e.run_fn(st.copy(), w, (), (V(VAL, 0, x),), T_("fr", "again")):
                    why += codec.same_json(e, s2, j, j2)
                yield Ob("roundtrip/same/%s" % k, GOOD if not why else st_of(j, x), "a %s that was written and read back is written the same again%s" % (k, ": " + why[0][:200] if why else ""), name)
            except EngineLimit as q:
                yield Ob("roundtrip/limit/%s" % k, UNDECIDED, str(q)[:200], name)


@rule("codec-initial", "C11", "abstract interpretation by induction over the specification: the initial value, written and read back as a guess, is the initial value")
def _(ctx, prop):
    res = analysis(ctx, "init")
    yield from common(res, "initial")
    yield from panics(res, "initial", "reading the initial value as a guess")
    for k, outs in res["outs"].items():
        for name, e, st, kind, s, v, j, ok, x in outs:
            why = [] if ok else ["it is rejected: " + show(x)[:100]]
            if ok:
                why = same_value(e, st, x, v)
            yield Ob("initial/same/%s" % k, GOOD if not why else st_of(j, x), "the initial value of a %s given as the guess is the initial value%s" % (k, ": " + why[0][:200] if why else ""), name)


@rule("initial-value", "C01 C10 C11", "abstract interpretation of Spec::initial_value: the initial value conforms to every well-formed specification and its computation does not panic")
def _(ctx, prop):
    res = analysis(ctx, "init")
    for m in res["miss"]:
        yield Ob("initial-value/entry/%s" % m, UNDECIDED, "entry point %s not found" % m)
    for name, msg, stk in res["limits"]:
        yield Ob("initial-value/limit/%s" % name.split()[0], UNDECIDED, "%s: analysis gave up: %s" % (name, msg[:200]), short(stk[-1]) if stk else "")
    for name, e, st, k, s, x in res["inits"]:
        prs = check_conf(e, st, x, s)
        yield Ob("initial-value/%s" % k, GOOD if not prs else UNDECIDED if any(q.taint for q in prs) else BAD, "the initial value of a well-formed %s conforms to it%s" % (k, ": " + prs[0].what if prs else ""), name, show(prs[0].term)[:200] if prs else "")
        why = declared(e, st, k, s, x)
        yield Ob("initial-value/declared/%s" % k, GOOD if not why else st_of(x), "the initial value of a %s is the declared one%s" % (k, ": " + why if why else ""), name, show(x)[:200])


def declared(e, st, k, s, x):
    """is the initial value made of what the specification declares?"""
    x = e.deref_all(st, x)
    sf = e.dom.sf
    if x.tag != "V" or x.a[0] != VN:
        return "of unknown origin"

    def child(c, of):
        c = e.deref_all(st, c)
        o = codec.attr(c, "initof")
        return o is not None and codec.same_term(e, st, o, of)
    a = [e.deref_all(st, y) for y in x.a[2]]
    if k in ("Real", "Int", "Bool", "Enum"):
        return None if codec.same_term(e, st, a[0], sf(s, k, "init")) or e.mod.unlin(a[0]) is sf(s, k, "init") else "another value"
    if k == "Variant":
        if not codec.same_term(e, st, a[0], sf(s, k, "init")):
            return "another option"
        return None if child(a[1], T_("at", sf(s, k, "map"), a[0])) else "not the option's initial value"
    if k == "Optional":
        want = e.ev(st, sf(s, k, "init_present"))
        d = e.disc_of(st, a[0])
        if d is None or want is None or (d == 1) != want:
            return "presence differs"
        return None if d == 0 or child(fld(a[0], 1, 0) if a[0].tag != "V" else a[0].a[2][0], sf(s, k, "value_type")) else "not the initial value of its type"
    if k in ("Sub", "Array", "AnonMap"):
        if k == "AnonMap" and e.ev(st, EQ0(lsub(LEN(a[0]), sf(s, k, "init_size")))) is not True:
            return "another size"
        for s2, kk, v in codec.elements(e, st, a[0]):
            o = codec.attr(e.deref_all(s2, v), "initof")
            if o is None or not codec.same_term(e, s2, o, T_("at", sf(s, k, "map"), kk) if k == "Sub" else sf(s, k, "value_type")):
                return "not made of its parts' initial values"
    return None


@rule("codec-text", "C11", "resolved features of the JSON library: reals printed as text must be read back exactly")
def _(ctx, prop):
    p = ctx.p
    use = [b for b, fs in ((b, [bl.tm["f"].get("fn") for bl in body.blocks if bl.tm["t"] == "call" and bl.tm["f"].get("o") == "const"]) for b, body in p.bodies.items()) if any(f and p.short(f) in ("serde_json::from_str", "de::from_str", "serde_json::from_reader", "serde_json::from_slice") for f in fs if f in p.defs)]
    try:
        out = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", os.path.join(extract.REPO, "Cargo.toml")], capture_output=True, text=True, timeout=120)
        md = json.loads(out.stdout)
        feats = [n["features"] for n in md["resolve"]["nodes"] if "serde_json" in n["id"].split("/")[-1].split("#")[-1] or "serde_json@" in n["id"] or n["id"].startswith("serde_json ")]
    except Exception as x:
        yield Ob("codec/features", UNDECIDED, "cargo metadata failed: %s" % str(x)[:200])
        return
    if not feats:
        yield Ob("codec/features", UNDECIDED, "serde_json is not a dependency")
        return
    ok = any("float_roundtrip" in f for f in feats) or any("arbitrary_precision" in f for f in feats)
    yield Ob("codec/float-text", GOOD if ok else BAD, "reals that are printed are read back exactly (serde_json feature float_roundtrip)", ", ".join(short(u) for u in sorted(use))[:200])
