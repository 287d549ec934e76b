"""Rules over process-based evaluation: life cycle of the child (C07), protocol with it (C16), and what
it may do to the run (C15, C04)."""
from terms import *
from terms import T_, T
import engine as E
import proc
import prog as P
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_ops import short
from nodes import tainted


def one(p, fn, ty, timed):
    c = proc.Proc(p, timed).run(fn, ty)
    pan = []
    for ev in c.panics:
        d = ev.data
        t = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
        pan.append((ev.fn, ev.sp, str(d[0]) if isinstance(d, tuple) and d else str(d), any(tainted(x) for x in t)))
    return dict(fn=fn, timed=timed, obs=c.obligations(), limit=c.limit and str(c.limit)[:300], exits=len(c.exits), cancels=c.cancels, unknown=dict(c.e.unknown), panics=sorted(set(pan)),
                steps=c.e.steps, stack=sorted(c.e.visited))


def runs(ctx):
    def go():
        out = []
        ev = proc.evaluators(ctx.p)
        jobs = [(f, t, x) for f, t in ev for x in (True, False)]
        for j, (k, r) in zip(jobs, parallel([(lambda j=j: one(ctx.p, *j)) for j in jobs])):
            if k == "ok":
                out.append(r)
            else:
                out.append(dict(fn=j[0], timed=j[2], obs={}, limit=str(r).strip().splitlines()[-1][:300], exits=0, cancels=0, unknown={}, panics=[], steps=0, stack=[]))
        ctx.stats["process_evaluators"] = [short(f) for f, t in ev]
        ctx.stats["process_exit_states"] = sum(r["exits"] for r in out)
        ctx.stats["engine_steps_process"] = sum(r["steps"] for r in out)
        ctx.stats["unmodelled_process_calls"] = sorted({k for r in out for k in r["unknown"]})
        return out
    return ctx.once("process", go)


REACH = {
    "C07/kill/end": "an evaluation ends after its child has been waited for",
    "C07/kill/timeout": "an evaluation can exceed its time limit",
    "C07/kill/abort": "an evaluation can be aborted",
    "C07/kill/abandoned": "an evaluation can be abandoned",
    "C07/leader": "a process is started",
    "C07/limit": "the time limit is armed",
    "C16/argv": "a process is started",
    "C16/result": "a child's result is accepted",
    "C16/exit-status": "the exit status is looked at",
    "C16/stdout": "the child's output is parsed",
}


@rule("process", "C04 C07 C15 C16", "abstract interpretation of the evaluation coroutine that owns the child process, over every order of child exit, time limit and abort, with abandonment at every suspension point")
def _(ctx, prop):
    rs = runs(ctx)
    if not rs:
        yield Ob("process/evaluator", UNDECIDED, "no implementation of the objective function trait that starts a process was found")
        return
    seen = {}
    lim = any(r["limit"] for r in rs)
    found = False
    for r in rs:
        w = "%s, time limit %s" % (short(r["fn"]), "given" if r["timed"] else "absent")
        if r["limit"]:
            yield Ob("process/limit/%s" % r["timed"], UNDECIDED, "%s: analysis gave up: %s" % (w, r["limit"]))
        for k, (text, n, bad) in r["obs"].items():
            if not k.startswith(prop + "/"):
                continue
            seen.setdefault(k, set()).add(r["timed"])
            if n and not bad:
                yield Ob("process/" + k, GOOD, text, w)
            for (stt, t), d in bad.items():
                st = UNDECIDED if stt == "und" or r["unknown"] else BAD
                found = found or st == BAD
                yield Ob("process/" + k, st, "process evaluation: %s - not so" % t, "%s (%s); %s" % (short(str(d[0])), d[1], w), d[2:])
    for k, why in REACH.items():
        if k.startswith(prop + "/") and k not in seen and not found:
            yield Ob("process/%s/reach" % k, UNDECIDED if lim or any(r["unknown"] for r in rs) else BAD, "%s - no such path exists in %s" % (why, short(rs[0]["fn"])), short(rs[0]["fn"]))
    if prop == "C15":
        for r in rs:
            if not r["limit"]:
                yield Ob("process-panic/%s" % r["timed"], GOOD, "no panic is reachable in %s" % short(r["fn"]), "%d exit states" % r["exits"])
            for fn, sp, w, t in r["panics"]:
                yield Ob("process-panic/%s/%s" % (short(fn), w), UNDECIDED if t else BAD, "panic reachable in %s: %s" % (short(fn), w), sp)


@rule("spawn-sites", "C07", "call-graph query: every process is started inside an analysed evaluation coroutine")
def _(ctx, prop):
    p = ctx.p
    ev = proc.evaluators(p)
    vis = set()
    for r in runs(ctx):
        vis |= set(r["stack"])
    for b, n, sp in proc.spawn_sites(p):
        if b in vis:
            yield Ob("spawn/%s" % short(b), GOOD, "the process started in %s is covered by the life-cycle analysis" % short(b), str(sp))
        else:
            yield Ob("spawn/%s" % short(b), UNDECIDED, "%s starts a process outside the analysed evaluation (%s)" % (short(b), n), str(sp))


# ---- the result schema ------------------------------------------------------------------------------
def parsed_types(p):
    """local types that the child's output is deserialised into"""
    out = set()
    for b, body in p.bodies.items():
        if not b.startswith("cambrian::process"):
            continue
        for bl in body.blocks:
            t = bl.tm
            if t["t"] == "call" and t["f"].get("fn") and p.short(t["f"]["fn"]).split("::")[-1] in ("from_slice", "from_str", "from_reader", "from_value"):
                for a in t["f"].get("args", ()):
                    if isinstance(a, T) and a.tag == "adt" and a.a[0].startswith("cambrian::"):
                        out.add(a.a[0])
    return out


def consts_of(body):
    out = []

    def w(x):
        if isinstance(x, dict):
            v = x.get("ct")
            if isinstance(v, str) and len(v) > 1 and v[0] == '"' and v[-1] == '"':
                out.append(v[1:-1])
            for y in x.values():
                w(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                w(y)
    for bl in body.blocks:
        w(bl.st)
        w(bl.tm)
    return out


@rule("result-schema", "C16", "query over the derived deserialiser of the child's result: one optional number, unknown fields refused")
def _(ctx, prop):
    p = ctx.p
    tys = parsed_types(p)
    if len(tys) != 1:
        yield Ob("schema/type", UNDECIDED, "the type the child's output is parsed into was not found uniquely: %s" % sorted(tys))
        return
    ty = tys.pop()
    vs = p.adts[ty]["variants"]
    fs = vs[0]["fields"] if len(vs) == 1 else []
    ok = len(fs) == 1 and E._peel(fs[0][1]).tag == "adt" and fs[0][1].a[0].endswith("option::Option") and fs[0][1].a[1][0].tag == "float"
    yield Ob("schema/field", GOOD if ok else BAD, "the child's result is one optional floating point number", short(ty), [n for n, t in fs])
    vis = [b for b in p.bodies if b.endswith("::visit_str") and "::deserialize" in b and owner(p, b) == ty]
    if not vis:
        yield Ob("schema/derived", UNDECIDED, "no derived field visitor was found for %s" % short(ty))
        return
    for b in vis:
        calls = [p.short(bl.tm["f"]["fn"]).split("::")[-1] for bl in p.bodies[b].blocks if bl.tm["t"] == "call" and bl.tm["f"].get("fn")]
        yield Ob("schema/unknown-fields", GOOD if "unknown_field" in calls else BAD, "unknown fields in the child's result are refused", short(b))
        names = set(consts_of(p.bodies[b]))
        if names:
            yield Ob("schema/name", GOOD if names == {"objFuncVal"} else BAD, "the result field is called objFuncVal", short(b), sorted(names))


def owner(p, b):
    """the type a derived deserialiser belongs to"""
    import re
    m = re.match(r"(.*::deserialize)::\{impl#\d+\}::visit_str$", b)
    f = m and m.group(1)
    for im in p.impls:
        if f in im["items"].values() and im["self"].tag == "adt":
            return im["self"].a[0]
    return None
