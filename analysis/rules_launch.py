"""Rules over the layers around the controller (analysis/launch.py): the launch task, the launcher, the
report writer, the adapter for in-process objective functions, the termination criteria."""
from terms import *
from terms import T_, T
import launch as L
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_ops import short
from nodes import tainted

LAUNCH = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]
WRITE = ["0", "00", "01", "010", "10", "11", "101", "110", "111", "100", "1110", "1101", "1011", "1111"]
WRITE_DEEP = ["11111", "10111", "11011", "11101", "1000", "01111"]

# obligations that must come up: their absence means the behaviour is gone
REACH = {
    "task": {
        "C04/command-aborts": "a terminate command can arrive while the controller runs",
        "C04/command-first": "the controller is driven",
        "C04/passes-signal": "the controller is given an abort signal",
        "C02/returns": "the controller's result is returned", "C04/returns": "the controller's result is returned", "C06/returns": "the controller's result is returned",
        "C14/passes-report": "the controller is given the report channel",
        "C03/passes/maximum-number-of-evaluations": "the controller is given the maximum number of evaluations",
        "C04/passes/target-objective-value": "the controller is given the target",
        "C11/passes/initial-guess": "the controller is given the initial guess",
        "C05/passes/algorithm-configuration": "the controller is given the configuration",
        "C08/passes/specification": "the controller is given the specification",
    },
    "launcher": {
        "C04/time-limit": "a time limit can pass while the run goes on",
        "C04/interrupt": "a run with the interrupt criterion goes on",
        "C04/limit-value": "a time limit is set up",
        "C04/limit-armed": "the time limit is armed",
        "C05/workers": "a run with in-process evaluation is set up",
        "C14/writer-drained": "a run ends after its report writer",
        "C14/writer-channel": "a report writer is started",
        "C14/passes-report": "the run is given the report channel",
        "C04/passes-commands": "the run is given the command channel",
        "C02/launch-returns": "the run's result is returned", "C04/launch-returns": "the run's result is returned", "C06/launch-returns": "the run's result is returned",
        "C16/criteria-refused": "criteria can be refused",
        "C15/drives-run": "the launcher waits", "C15/drives-writer": "the launcher waits",
        "C03/launch-passes/maximum-number-of-evaluations": "the run is given the maximum number of evaluations",
        "C04/launch-passes/target-objective-value": "the run is given the target",
        "C11/launch-passes/initial-guess": "the run is given the initial guess",
    },
    "writer": {
        "C14/rows": "records are written",
        "C14/best-minimum": "several results are recorded",
        "C14/best-value": "a result is recorded",
        "C14/best-written": "a result is recorded",
        "C14/flushed": "the report is finished",
        "C14/drained": "the writer ends", "C15/drained": "the writer ends",
        "C14/row/individualId": "rows carry the id", "C14/row/seed": "rows carry the seed", "C14/row/inputVal": "rows carry the parameter set",
        "C14/row/objFuncVal": "rows carry the result",
    },
    "adapter": {
        "C01/in-process-value": "the objective function is called",
        "C02/in-process-result": "the objective function's result is returned",
        "C04/in-process-abort": "an evaluation can be aborted",
    },
    "criteria": {
        "C03/criterion/NumObjFuncEval": "the maximum number of evaluations is taken over",
        "C04/criterion/TargetObjFuncVal": "the target is taken over",
        "C04/criterion/TerminateAfter": "the time limit is taken over",
        "C04/criterion/Signal": "the interrupt criterion is taken over",
        "C16/target-finite": "a target can be refused",
        "C16/accepted": "criteria are accepted",
    },
}
WHAT = {"task": "launch task", "launcher": "launcher", "writer": "report writer", "adapter": "in-process evaluation", "criteria": "termination criteria"}


def summary(kind, conf, a):
    pan = []
    for ev in a.panics:
        d = ev.data
        t = [x for x in d if isinstance(x, T)] if isinstance(d, tuple) else []
        w = str(d[0]) if isinstance(d, tuple) and d else str(d)
        pan.append((ev.fn, ev.sp, w, any(tainted(x) for x in t)))
    return dict(kind=kind, conf=conf, obs=a.obligations(), limit=a.limit and str(a.limit)[:300], exits=len(a.exits), steps=a.e.steps, panics=sorted(set(pan)), unknown=sorted(a.e.unknown))


def jobs(ctx):
    p = ctx.p
    err = []
    task, task_l = L.async_launchers(p)
    out = []
    wr, co = L.writers(p), L.compilers(p)
    if len(task_l) != 1:
        err.append(("task", "the task that runs the controller was not found uniquely: %s" % task_l))
    else:
        out.append(("task", "", lambda: L.Task(p).run(task_l[0], task)))
        a, s = L.sync_launchers(p)
        if len(s) != 1 or len(wr) != 1 or len(co) != 1:
            err.append(("launcher", "the launcher, the report writer and the termination criteria were not found uniquely: %s, %s, %s" % (s, wr, co)))
        else:
            for c in LAUNCH:
                out.append(("launcher", "in-process %s, time limit %s, interrupt %s" % tuple("yes" if x else "no" for x in c), lambda c=c: L.Launcher(p, *c).run(s[0], a, wr[0], co[0])))
    if len(wr) != 1:
        err.append(("writer", "the report writer was not found uniquely: %s" % wr))
    else:
        for c in WRITE + (WRITE_DEEP if ctx.tier == "thorough" else []):
            out.append(("writer", "files %s, records %s" % ("given" if c[0] == "1" else "absent", "".join("A" if x == "1" else "R" for x in c[1:]) or "none"),
                        lambda c=c: L.Writer(p, c[0] == "1", [x == "1" for x in c[1:]]).run(wr[0])))
    ad = L.adapters(p)
    if not ad:
        err.append(("adapter", "no implementation of the objective function trait for in-process functions was found"))
    for f, t in ad:
        out.append(("adapter", short(f), lambda f=f, t=t: L.Adapter(p).run(f, t)))
    if len(co) != 1:
        err.append(("criteria", "the compilation of the termination criteria was not found uniquely: %s" % co))
    else:
        for ks in L.crit_seqs(3 if ctx.tier == "thorough" else 2):
            out.append(("criteria", ", ".join(n + ("" if f else " (not finite)") for n, f in ks) or "none", lambda ks=ks: L.Compile(p, ks).run(co[0])))
    return out, err


def chunk(js):
    out = []
    for k, c, f in js:
        try:
            out.append(summary(k, c, f()))
        except Exception as x:
            out.append(dict(kind=k, conf=c, obs={}, limit="%s: %s" % (type(x).__name__, str(x)[:200]), exits=0, steps=0, panics=[], unknown=[]))
    return out


def runs(ctx):
    def go():
        js, err = jobs(ctx)
        n = 8
        rs = parallel([lambda i=i: chunk(js[i::n]) for i in range(n)])
        out = []
        for i, (k, r) in enumerate(rs):
            if k == "ok":
                out += r
            else:
                out += [dict(kind=j[0], conf=j[1], obs={}, limit=str(r).strip().splitlines()[-1][:300], exits=0, steps=0, panics=[], unknown=[]) for j in js[i::n]]
        ctx.stats["launch_layers_analysed"] = {w: sum(r["kind"] == w for r in out) for w in WHAT}
        ctx.stats["launch_layers_exit_states"] = sum(r["exits"] for r in out)
        ctx.stats["engine_steps_launch"] = sum(r["steps"] for r in out)
        ctx.stats["unmodelled_launch_calls"] = sorted({u for r in out for u in r["unknown"]})
        return out, err
    return ctx.once("launch", go)


@rule("launch", "C01 C02 C03 C04 C05 C06 C08 C11 C14 C15 C16", "abstract interpretation of the launch task, the launcher, the report writer, the in-process evaluation and the termination criteria, over every order in which their parts become ready")
def _(ctx, prop):
    rs, err = runs(ctx)
    for k, t in err:
        yield Ob("launch/%s/entry" % k, UNDECIDED, t)
    seen, lim, found = {}, set(), set()
    for r in rs:
        kind = r["kind"]
        w = WHAT[kind] + (" (%s)" % r["conf"] if r["conf"] else "")
        if r["limit"]:
            lim.add(kind)
            yield Ob("launch/%s/limit/%s" % (kind, r["conf"]), UNDECIDED, "%s: analysis gave up: %s" % (w, r["limit"]))
        for k, (text, n, bad) in r["obs"].items():
            if not k.startswith(prop + "/"):
                continue
            seen.setdefault(kind, set()).add(k)
            ctx.count("launch_obligation_instances", n + len(bad))
            if n and not bad:
                yield Ob("launch/%s/%s" % (kind, k), GOOD, text, w)
            for (stt, t), d in bad.items():
                st = UNDECIDED if stt == "und" or r["limit"] else BAD
                if st == BAD:
                    found.add(kind)
                else:
                    lim.add(kind)
                yield Ob("launch/%s/%s" % (kind, k), st, "%s: %s - not so" % (w, t), "%s (%s)" % (short(str(d[0])), d[1]), d[2:])
    kinds = {r["kind"] for r in rs}
    unk = {r["kind"] for r in rs if [u for u in r["unknown"] if not u.startswith("Duration::")]}
    for kind, ks in REACH.items():
        if kind not in kinds or kind in found:
            continue
        for k, why in ks.items():
            if k.startswith(prop + "/") and k not in seen.get(kind, ()):
                yield Ob("launch/%s/%s/reach" % (kind, k), UNDECIDED if kind in lim or kind in unk else BAD, "%s - no such path exists in the %s" % (why, WHAT[kind]), WHAT[kind])
    if prop == "C15":
        for kind in sorted(kinds):
            good = [r for r in rs if r["kind"] == kind and not r["limit"]]
            yield Ob("launch-panic/%s" % kind, GOOD if len(good) == sum(r["kind"] == kind for r in rs) else UNDECIDED, "no panic is reachable in the %s" % WHAT[kind], "%d exit states" % sum(r["exits"] for r in good))
        for r in rs:
            for fn, sp, w, t in r["panics"]:
                yield Ob("launch-panic/%s/%s/%s" % (r["kind"], short(fn), w), UNDECIDED if t or "overflow" in w.lower() else BAD, "panic reachable in %s: %s" % (short(fn), w), sp, (r["conf"],))
