"""Rules over the controller: the obligations emitted by the abstract interpretation of analysis/ctrl.py."""
from terms import *
from terms import T_, T
import ctrl
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_ops import short
from nodes import tainted

CONFS = [(mx, tg, g) for mx in (True, False) for tg in (True, False) for g in (False, True)
         if not (g and (not mx or tg))]

# obligations that must come up in some configuration: their absence means the behaviour is gone
REACH = {
    "C03/exact": ((True, None), "a run with a maximum number of evaluations can end by exhausting it"),
    "C03/budget": ((True, None), "evaluations are started"),
    "C05/work-conserving": ((None, None), "the controller waits for completions while running"),
    "C05/bound": ((None, None), "evaluations are started"),
    "C04/waits": ((None, None), "a run that received a termination request can end"),
    "C04/signalled": ((None, None), "a termination request is observed and acted on"),
    "C04/target-report": ((None, True), "a run whose target is reached ends"),
    "C04/target-stops": ((None, True), "a run whose target is reached is examined"),
    "C06/fails": ((None, None), "a run with a failed evaluation ends"),
    "C06/finite": ((None, None), "objective values are checked for finiteness"),
    "C06/signalled": ((None, None), "a failure is acted on"),
    "C02/process-value": ((None, None), "results are handed to the algorithm"),
    "C02/report-value": ((None, None), "a run can end with a report"),
    "C08/seed": ((None, None), "evaluations receive seeds"),
    "C08/id": ((None, None), "evaluations receive ids"),
    "C11/guess-source": ((True, False), "the initial guess is validated"),
    "C11/guess-rejected": ((None, None), "a run with a valid guess goes on"),
    "C14/record-id": ((None, None), "evaluations are recorded"),
    "C14/count-completed": ((None, None), "the final report carries the counts"),
}


def one(prog, entry, conf, prune):
    c = ctrl.Ctrl(prog, *conf, prune=prune).run(entry)
    pan = []
    for ev in c.panics:
        d = ev.data
        t = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
        w = str(d[0]) if isinstance(d, tuple) and d else str(d)
        pan.append((ev.fn, ev.sp, w, any(tainted(x) for x in t)))
    return dict(conf=conf, obs=c.obligations(), limit=c.limit and str(c.limit)[:400], exits=len(c.exits), steps=c.e.steps,
                panics=sorted(set(pan)), unknown=dict(c.e.unknown), heads=len(c.shapes))


def runs(ctx, prop):
    def go():
        es = ctrl.entry_of(ctx.p)
        if len(es) != 1:
            return None, "the controller was not found uniquely: %s" % es
        rs = parallel([lambda c=c: one(ctx.p, es[0], c, prop) for c in CONFS])
        again = [i for i, (k, r) in enumerate(rs) if k != "ok" or r["limit"]]
        for i, x in zip(again, parallel([lambda c=CONFS[i]: one(ctx.p, es[0], c, "all") for i in again])):
            if x[0] == "ok" and not x[1]["limit"]:
                rs[i] = x
        out = []
        for c, (k, r) in zip(CONFS, rs):
            if k == "ok":
                out.append(r)
            else:
                out.append(dict(conf=c, obs={}, limit=r.strip().splitlines()[-1][:300], exits=0, steps=0, panics=[], unknown={}, heads=0))
        ctx.stats["controller_configurations"] = len(out)
        ctx.stats["controller_exit_states"] = sum(r["exits"] for r in out)
        ctx.stats["engine_steps_controller"] = sum(r["steps"] for r in out)
        ctx.stats["unmodelled_calls"] = sorted(set(k for r in out for k in r["unknown"]))
        return out, None
    return ctx.once(("ctrl", prop), go)


def cname(c):
    return "max-eval %s, target %s, guess %s" % tuple("given" if x else "absent" for x in c)


@rule("controller", "C02 C03 C04 C05 C06 C08 C11 C14", "abstract interpretation of the controller coroutine with ghost counters for evaluations started, in flight, accepted, rejected and skipped, over every schedule of completions, failures and termination requests")
def _(ctx, prop):
    rs, err = runs(ctx, prop)
    if err:
        yield Ob("controller/entry", UNDECIDED, err)
        return
    seen = {}
    found = False
    for r in rs:
        if r["limit"]:
            yield Ob("controller/limit/%s" % (r["conf"],), UNDECIDED, "controller (%s): analysis gave up: %s" % (cname(r["conf"]), r["limit"]))
        for k, (text, n, bad) in r["obs"].items():
            if not k.startswith(prop + "/"):
                continue
            seen.setdefault(k, set()).add(r["conf"])
            ctx.count("controller_obligation_instances", n + len(bad))
            if n and not bad:
                yield Ob(k, GOOD, text, "controller (%s)" % cname(r["conf"]))
            for (stt, t), d in bad.items():
                st = UNDECIDED if stt != ctrl.BADV or r["limit"] else BAD
                found = found or st == BAD
                yield Ob(k, st, "controller: %s - not so" % t, "%s (%s); %s" % (short(str(d[0])), d[1], cname(r["conf"])), d[2:])
    lim = any(r["limit"] for r in rs)
    for k, ((mx, tg), why) in REACH.items():
        if k.startswith(prop + "/") and k not in seen and not found:
            yield Ob(k + "/reach", UNDECIDED if lim else BAD, "%s - no such path exists in the controller" % why, "controller")


@rule("controller-panics", "C15", "abstract interpretation of the controller coroutine: no reachable panic")
def _(ctx, prop):
    rs, err = runs(ctx, prop)
    if err:
        yield Ob("controller/entry", UNDECIDED, err)
        return
    for r in rs:
        if r["limit"]:
            yield Ob("controller/limit/%s" % (r["conf"],), UNDECIDED, "controller (%s): analysis gave up: %s" % (cname(r["conf"]), r["limit"]))
        yield Ob("controller-panic/%s" % (r["conf"],), GOOD, "no panic is reachable in the controller (%s)" % cname(r["conf"]), "%d exit states" % r["exits"])
        for fn, sp, w, t in r["panics"]:
            yield Ob("controller-panic/%s/%s" % (short(fn), w), UNDECIDED if t or "overflow" in w.lower() else BAD, "panic reachable in %s: %s" % (short(fn), w), sp)
        for k, (text, n, bad) in r["obs"].items():
            if k.startswith("C15/"):
                if n and not bad:
                    yield Ob(k, GOOD, text, "controller")
                for (stt, t), d in bad.items():
                    yield Ob(k, UNDECIDED if stt != ctrl.BADV or r["limit"] else BAD, "controller: %s - not so" % t, "%s (%s)" % (short(str(d[0])), d[1]), d[2:])
