"""Rules over the command line program (analysis/cli.py)."""
import cli
from core import rule, Ob, OK as GOOD, BAD, UNDECIDED, parallel
from rules_ops import short
from rules_launch import summary

REACH = {
    "C16/stdout-line": "the program can succeed", "C02/stdout-line": "the program can succeed",
    "C16/summary": "the program can succeed with an output directory",
    "C16/failure-status": "a run can fail", "C06/failure-status": "a run can fail",
    "C16/dump/stdout": "an evaluation can fail in a run with an output directory",
    "C16/dump/stderr": "an evaluation can fail in a run with an output directory",
    "C16/dump/obj_func_arg": "an evaluation can fail in a run with an output directory",
    "C16/refused": "the output directory can exist already",
    "C16/out-dir": "a run can have an output directory",
    "C16/removes": "an existing output directory can be replaced",
    "C16/program": "the objective program is started", "C16/program-args": "the objective program is started",
    "C16/spec": "a run is started", "C10/spec-file": "a run is started",
    "C03/option/max_obj_func_eval": "a run is started", "C04/option/target_obj_func_val": "a run is started", "C04/option/terminate_after": "a run is started",
    "C04/option/no_signal_result": "a run is started", "C05/option/num_concurrent": "a run is started with a given concurrency", "C08/option/sample_size": "a run is started with a given sample size",
    "C11/option/initial_guess": "a run is started", "C07/option/kill_obj_func_after": "a run is started", "C14/files": "a run is started",
    "C16/option/initial_guess": "a run is started", "C16/config-min": "a run is started",
}

# unmodelled calls into these types only compute values
PURE = ("Duration", "Instant", "SystemTime", "Path", "PathBuf", "OsStr", "OsString", "str", "String", "char", "num", "f64", "usize", "u64", "Level", "LevelFilter", "fmt", "Arguments")


def text(c):
    g, ex, fo, ns, ve = c
    return "options %s; output directory %s%s%s%s" % (", ".join(g) or "none", "exists" if ex else "does not exist", ", --force" if fo else "", ", --no-signal-result" if ns else "", ", --verbose" if ve else "")


def runs(ctx):
    def go():
        p = ctx.p
        if cli.MAIN not in p.bodies or cli.args_type(p) is None:
            return [], "the command line program's main function and options were not found"
        cs = cli.confs(p)
        ds = cli.displays(p)
        js = [(text(c), lambda c=c: cli.Cli(p, *c).run()) for c in cs] + [("text of the report", lambda f=f: cli.Summary(p).run(f)) for f in ds]

        def chunk(js):
            out = []
            for w, f in js:
                try:
                    out.append(summary("cli", w, f()))
                except Exception as x:
                    out.append(dict(kind="cli", conf=w, obs={}, limit="%s: %s" % (type(x).__name__, str(x)[:200]), exits=0, steps=0, panics=[], unknown=[]))
            return out
        n = 4
        out = []
        for i, (k, r) in enumerate(parallel([lambda i=i: chunk(js[i::n]) for i in range(n)])):
            out += r if k == "ok" else [dict(kind="cli", conf=j[0], obs={}, limit=str(r).strip().splitlines()[-1][:300], exits=0, steps=0, panics=[], unknown=[]) for j in js[i::n]]
        for r in out:
            r["unknown"] = [u for u in r["unknown"] if u.split("::")[0] not in PURE]
        ctx.stats["cli_configurations"] = len(cs)
        ctx.stats["cli_exit_states"] = sum(r["exits"] for r in out)
        ctx.stats["engine_steps_cli"] = sum(r["steps"] for r in out)
        ctx.stats["unmodelled_cli_calls"] = sorted({u for r in out for u in r["unknown"]})
        return out, None
    return ctx.once("cli", go)


@rule("cli", "C02 C03 C04 C05 C06 C07 C08 C10 C11 C14 C15 C16", "abstract interpretation of the command line program over combinations of given and absent options, with every file operation and the run itself succeeding or failing")
def _(ctx, prop):
    rs, err = runs(ctx)
    if err:
        yield Ob("cli/entry", UNDECIDED, err)
        return
    seen, und, found = set(), any(r["limit"] or r["unknown"] for r in rs), False
    for r in rs:
        w = "command line (%s)" % r["conf"]
        if r["limit"]:
            yield Ob("cli/limit/%s" % r["conf"], UNDECIDED, "%s: analysis gave up: %s" % (w, r["limit"]))
        for k, (t0, n, bad) in r["obs"].items():
            if not k.startswith(prop + "/"):
                continue
            seen.add(k)
            ctx.count("cli_obligation_instances", n + len(bad))
            if n and not bad:
                yield Ob("cli/" + k, GOOD, t0, w)
            for (stt, t), d in bad.items():
                st = UNDECIDED if stt == "und" or r["limit"] or r["unknown"] else BAD
                found = found or st == BAD
                und = und or st != BAD
                yield Ob("cli/" + k, st, "%s: %s - not so" % (w, t), "%s (%s)" % (short(str(d[0])), d[1]), d[2:])
    for k, why in REACH.items():
        if k.startswith(prop + "/") and k not in seen and not found:
            yield Ob("cli/%s/reach" % k, UNDECIDED if und else BAD, "%s - no such path exists in the command line program" % why, "cambrian::main")
    if prop == "C15":
        yield Ob("cli-panic", UNDECIDED if any(r["limit"] for r in rs) else GOOD, "no panic is reachable in the command line program", "%d exit states" % sum(r["exits"] for r in rs))
        for r in rs:
            for fn, sp, w, t in r["panics"]:
                yield Ob("cli-panic/%s/%s" % (short(fn), w), UNDECIDED if t or r["unknown"] or "overflow" in w.lower() else BAD, "panic reachable in %s: %s" % (short(fn), w), sp, (r["conf"],))
