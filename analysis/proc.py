"""Abstract interpretation of process-based evaluation: the coroutine that starts, watches, kills and
reaps the objective-function process. Every suspension point is also taken as the point at which the
evaluation is abandoned: the drop edge is followed, with the drops of everything the coroutine holds."""
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
from models import D, ppx
import asyncm
from asyncm import G, setg, gcell, FUT, CH, PENDING, READY, poll_value, run_cor, base_engine
import nodes
import prog as P

SPAWNS = ("group_spawn", "spawn", "output", "status")
TRAIT = "AsyncObjectiveFunction"
PROC_TYPES = ("process::Command", "AsyncCommandGroup", "CommandGroup", "CommandGroupBuilder", "AsyncCommandGroupBuilder")


def app(n, *a):
    return T_("app", S(n), *a)


def spawn_sites(p):
    """[(body, callee)] of every call that starts a process"""
    out = []
    for b, body in p.bodies.items():
        if not b.startswith("cambrian::"):
            continue
        for bl in body.blocks:
            t = bl.tm
            if t["t"] != "call" or not t["f"].get("fn"):
                continue
            fn = t["f"]["fn"]
            n = p.short(fn)
            parts = n.split("::")
            if parts[-1] in SPAWNS and any(x in fn or x in n for x in ("Command", "process", "command_group")) and "cambrian" not in fn:
                out.append((b, n, t.get("sp")))
            if parts[-1] in ("fork", "posix_spawn", "execv", "execve", "execvp") and "nix" in fn + n:
                out.append((b, n, t.get("sp")))
    return out


def evaluators(p):
    """trait implementations from which a process is started"""
    sites = {b for b, n, sp in spawn_sites(p)}
    out = []
    for im in p.impls:
        if (im.get("trait") or "").split("::")[-1] != TRAIT:
            continue
        f = im["items"].get("evaluate")
        if f is None or f not in p.bodies:
            continue
        r = p.reach([f]) | {f}
        if r & sites:
            out.append((f, im["self"]))
    return out


def sigkill(p):
    for a in p.adts:
        if a.endswith("signal::Signal"):
            for i, v in enumerate(p.adts[a]["variants"]):
                if v["name"] == "SIGKILL":
                    return a, i
    return None, None


class Proc:
    def __init__(self, prog, limit_given):
        self.p = prog
        self.timed = limit_given
        self.limit = None
        self.exits = []
        self.cancels = 0
        self.seen = {}

    # ---- obligations
    def emit(self, e, key, ok, text, data=(), und=False):
        if ok:
            e.event("ob", None, (key, "ok", text))
        else:
            e.event("ob", None, (key, "und" if und else "bad", text, e.stack[-1] if e.stack else "?", e.sps[-1] if e.sps else "", tuple(show(x)[:300] if isinstance(x, T) else str(x) for x in data)))
        return ok

    def req(self, e, st, key, ok, text, data=()):
        if isinstance(ok, T):
            r = e.ev(st, ok)
            if r is None:
                good, bad = e.split(st.copy(), ok)
                r = not any(e.feasible(b) for b in bad)
            ok = r
        if not ok and not e.feasible(st):
            return True
        und = any(nodes.tainted(x) for x in data if isinstance(x, T)) or G(st, "unk") is TRUE
        return self.emit(e, key, bool(ok), text, data, und)

    def obligations(self):
        out = {}
        for ev in self.e.all_events("ob"):
            d = ev.data
            o = out.setdefault(d[0], [d[2], 0, {}])
            if d[1] == "ok":
                o[1] += 1
            else:
                o[2].setdefault((d[1], d[2]), d[3:])
        return out

    # ---- running
    def run(self, fn, selfty):
        p = self.p
        e = base_engine(p, nodes.NodeDomain(p))
        self.e = e
        e.ctl = self
        e.limit_steps = 200000
        e.add_fin = lambda st, y: st.fi.__setitem__(y, (-FMAX, FMAX, False))
        install(e, self)
        st = State()
        body = p.bodies[fn]
        args = []
        self.limitv = T_("y", "limit", (), ())
        self.prog = T_("y", "program", (), ())
        self.args = T_("y", "userargs", (), ())
        for i in range(body.argc):
            t = E._peel(body.ltys[i + 1])
            if t.tag == "adt" and t.a[0] == selfty.a[0]:
                fs = []
                for n, ft in p.adts[t.a[0]]["variants"][0]["fields"]:
                    if ft.tag == "adt" and ft.a[0].endswith("Option"):
                        fs.append(SOME(self.limitv) if self.timed else NONE)
                    elif ft.tag == "adt" and ft.a[0].endswith("Vec"):
                        fs.append(self.args)
                    elif ft.tag == "adt" and ft.a[0].endswith("OsString"):
                        fs.append(self.prog)
                    else:
                        fs.append(T_("y", ("self", n), (), ()))
                args.append(V(t.a[0], 0, *fs))
            elif t.tag == "adt" and t.a[0].endswith("Receiver"):
                args.append(CH("abort"))
            elif t.tag == "int" and "seed" not in self.__dict__:
                self.seed = lin_of(T_("y", "seed", (), ("u",)))
                args.append(self.seed)
            elif t.tag == "int":
                args.append(lin_of(T_("y", "iid", (), ("u",))))
            elif t.tag == "adt" and t.a[0].startswith("serde_json"):
                self.value = T_("y", "value", (), ())
                args.append(self.value)
            else:
                args.append(T_("y", ("arg", i), (), ()))
        for n in ("waited", "killed", "reaped", "timeout", "abort", "cancel", "gone", "killfail", "pw", "ps", "pa", "ready"):
            setg(st, n, FALSE)
        setg(st, "child", UNIT)
        setg(st, "unk", FALSE)
        try:
            for s, r in e.run_fn(st, fn, (), tuple(args), T_("fr", "root")):
                r = e.deref_all(s, r)
                self.set_root(T_("fr", "root", ("poll", r.a[0])) if r.tag == "cor" else None)
                for s2, v in poll_value(e, s, r, ("root",)):
                    if G(s2, "cancel") is not TRUE:
                        if v is None:
                            raise EngineLimit("the evaluation is pending outside of an await")
                        self.exit(e, s2, v)
                    else:
                        self.left(e, s2)
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        self.panics = e.all_events("panic")
        return self

    # ---- what must hold when the evaluation is over
    def left(self, e, st):
        if G(st, "child") is UNIT:
            return
        how = "is abandoned" if G(st, "cancel") is TRUE else "times out" if G(st, "timeout") is TRUE else "is aborted" if G(st, "abort") is TRUE else "ends"
        k = {"is abandoned": "abandoned", "times out": "timeout", "is aborted": "abort", "ends": "end"}[how]
        self.req(e, st, "C07/kill/" + k, G(st, "killed") is TRUE or G(st, "gone") is TRUE, "when an evaluation %s, its process group is sent SIGKILL" % how)
        if G(st, "killed") is TRUE and G(st, "killfail") is not TRUE:
            self.req(e, st, "C07/reap/" + k, G(st, "reaped") is TRUE or G(st, "waited") is TRUE or G(st, "gone") is TRUE, "when an evaluation %s, its process has been waited for after it was killed" % how)

    def exit(self, e, st, r):
        self.exits.append(1)
        self.left(e, st)
        fired = G(st, "timeout") is TRUE or G(st, "abort") is TRUE
        for s, ok, x in M.res_cases(e, st, e.deref_all(st, r)):
            x = e.deref_all(s, x)
            if fired:
                what = "exceeds its time limit" if G(s, "timeout") is TRUE else "is aborted"
                k = "timeout" if G(s, "timeout") is TRUE else "abort"
                if ok:
                    self.req(e, s, "C07/%s-rejected" % k, e.disc_of(s, x) == 0, "an evaluation that %s is a rejection" % what, (x,))
                else:
                    self.req(e, s, "C07/%s-rejected" % k, G(s, "killfail") is TRUE or G(s, "waitfail") is TRUE, "an evaluation that %s is a rejection, not a failure" % what, (x,))
                continue
            if G(s, "child") is UNIT:
                if G(s, "spawnerr") is not None:
                    self.req(e, s, "C16/unlaunchable", not ok, "a program that cannot be launched is an error", (x,))
                continue
            out = G(s, "out")
            if out is None:
                continue
            if G(s, "success") is None:
                self.req(e, s, "C16/exit-status", not ok, "a result is only accepted or rejected after the exit status has been checked", (x,))
                continue
            if G(s, "success") is FALSE:
                self.req(e, s, "C16/exit-status", not ok, "a non-zero exit status is an error", (x,))
                if not ok:
                    self.dump(e, s, x, out, "exit")
                continue
            pr = G(s, "parsed")
            if ok:
                self.req(e, s, "C16/parse", pr is not None and pr.tag == "y", "a result is only accepted or rejected after the output was parsed", (x,))
                if pr is not None and pr.tag == "y":
                    want = fld(pr, 0, 0)
                    same = x is want
                    if not same:
                        dx, dw = e.disc_of(s, x), e.disc_of(s, want)
                        same = dx is not None and dx == dw and (dx == 0 or e.deref_all(s, fld(x, 1, 0)) is fld(want, 1, 0))
                    self.req(e, s, "C16/result", same, "the parsed objective value is the evaluation's result", (x, want))
                    self.req(e, s, "C16/object", G(s, "object") is TRUE, "only a JSON object is a result", (x,))
                    self.req(e, s, "C15/result", same, "the parsed objective value is the evaluation's result", (x, want))
            elif pr is None and G(s, "object") is not FALSE:
                for k in ("C15/success-refused", "C16/success-refused"):
                    self.req(e, s, k, False, "a successful child's result is only refused because of its output", (x,))
            elif pr is not None and pr.tag == "y" and G(s, "object") is TRUE:
                self.req(e, s, "C16/valid-refused", False, "a well-formed output of a successful child is not an error", (x,))
            else:
                self.dump(e, s, x, out, "parse")

    def dump(self, e, st, x, out, k):
        ok = x.tag == "V" and any(y is out for y in subterms(x))
        self.req(e, st, "C16/error-output/" + k, ok, "the error carries the child's output and arguments", (x,))
        if ok:
            self.req(e, st, "C16/error-args/" + k, any(y is app("json", self.value) for y in subterms(x)) and any(y is self.seed or y is T_("y", "seed", (), ("u",)) for y in subterms(x)), "the error carries the failing arguments", (x,))


def drop_all(e, st, v, ty, pp, depth=0):
    """run the Drop implementations of everything a value holds"""
    if depth > 6:
        return [st]
    cur = [st]
    if v.tag == "V" and v.a[0] == "proc:susp":
        return e.ctl.drop_susp(st, v)
    if v.tag == "V" and isinstance(v.a[0], str) and v.a[0].startswith("cambrian"):
        d = e.drop_impl(T_("adt", v.a[0], ()))
        if d is not None:
            nxt = []
            for s in cur:
                c = T_("dropcell", T_("fr", "drop", repr(pp[1:]), depth), pp[0])
                s.cells[c] = v
                e.sps.append("drop")
                try:
                    for s2, _ in e.run_fn(s, d, (), (T_("ref", c, ()),), T_("fr", pp[0], ("drop", pp[1:], depth))):
                        s2.cells.pop(c, None)
                        s2._k = None
                        nxt.append(s2)
                finally:
                    e.sps.pop()
            cur = nxt
    kids = ()
    if v.tag in ("V", "cor", "clo"):
        kids = v.a[2]
    elif v.tag == "tup":
        kids = v.a[0]
    for i, k in enumerate(kids):
        if isinstance(k, T) and k.tag in ("V", "cor", "clo", "tup"):
            cur = [s2 for s in cur for s2 in drop_all(e, s, k, None, pp + (i,), depth + 1)]
    return cur


def setref(e, st, ref, v):
    while True:
        x = e.read(st, ref.a[0], ref.a[1])
        if x.tag != "ref":
            break
        ref = x
    e.write(st, ref.a[0], ref.a[1], v)


def install(e, c):
    O, F = e.overrides, e.futs
    p = c.p
    SIGADT, SIGK = sigkill(p)

    # ---- suspending and abandoning
    e.same_pending = lambda k0, k1: False
    ROOT = [None]

    def yield_term(fr, b, st, t, pp):
        if G(st, "cancel") is TRUE:
            raise EngineLimit("suspension while being dropped")
        if ROOT[0] is None or fr.fid is not ROOT[0]:
            # a coroutine polled by another one: it keeps its locals until it is dropped
            if t.get("drop") is None:
                return []
            keep = tuple(T_("tup", (x, v)) for x, v in st.cells.items() if x.tag == "c" and x.a[0] is fr.fid)
            susp = T_("V", "proc:susp", 0, (T_("frame", fr.body.id, fr.fid, tuple(fr.genv), t["drop"]), T_("tup", keep)))
            st.cells[T_("c", fr.fid, 0)] = T_("V", "proc:suspended", 0, (susp,))
            st._k = None
            return [("ret", st)]
        if G(st, "child") is not UNIT:
            c.req(e, st, "C07/waits", G(st, "pw") is TRUE or G(st, "waited") is TRUE, "while an evaluation is suspended it waits for its child")
            if c.timed:
                c.req(e, st, "C07/timer", G(st, "ps") is TRUE, "while an evaluation with a time limit is suspended its timer runs")
            c.req(e, st, "C07/abortable", G(st, "pa") is TRUE, "while an evaluation is suspended it listens to the abort signal")
            c.req(e, st, "C04/abortable", G(st, "pa") is TRUE, "while an evaluation is suspended it listens to the abort signal")
        c.cancels += 1
        for n in ("pw", "ps", "pa"):
            setg(st, n, FALSE)
        setg(st, "cancel", TRUE)
        return [(t["drop"], st)] if t.get("drop") is not None else []
    e.yield_term = yield_term

    def codrop(fr, b, st, t, pp):
        st.cells[T_("c", fr.fid, 0)] = UNIT
        st._k = None
        return [("ret", st)]
    e.codrop_term = codrop

    def drop_susp(st, v):
        fr0, keep = v.a[2]
        fr = E.Frame(p.bodies[fr0.a[0]], fr0.a[1], fr0.a[2])
        for x in keep.a[0]:
            st.cells[x.a[0][0]] = x.a[0][1]
        st._k = None
        e.stack.append(fr0.a[0])
        try:
            outs, rets, _ = e.run_region(fr, None, fr0.a[3], [st], None)
        finally:
            e.stack.pop()
        for s in rets:
            for x in [x for x in s.cells if x.tag == "c" and x.a[0] is fr.fid]:
                del s.cells[x]
            s._k = None
        return rets
    c.drop_susp = drop_susp

    def poll_cor(eng, st, a, info):
        v = eng.deref_all(st, a[0])
        if v.tag == "V" and v.a[0].startswith("cambrian"):
            im = None
            return None
        if v.tag != "cor":
            return None
        out = []
        for s, r in run_cor(eng, st, v, info.pp + ("poll",)):
            if r.tag == "V" and r.a[0] == "proc:suspended":
                if a[0].tag == "ref":
                    setref(eng, s, a[0], r.a[2][0])
                out.append((s, PENDING()))
            else:
                out.append((s, READY(r)))
        return out

    def poll_any(eng, st, a, info):
        r = poll_cor(eng, st, a, info)
        return asyncm.OVR["Future::poll"](eng, st, a, info) if r is None else r
    for k in ("Future::poll", "FutureExt::poll_unpin"):
        O[k] = poll_any
    c.set_root = lambda fid: ROOT.__setitem__(0, fid)

    def poll_either(eng, st, v, pp):
        return poll_value(eng, st, v.a[2][0], pp + ("ei",))

    def pend(eng, st, v, pp):
        return [(st, None)]
    F["fut:pend"] = pend
    for k in ("future::pending", "pending::pending"):
        O[k] = lambda eng, st, a, info: [(st, FUT("pend"))]
    for a in p.adts:
        if a.endswith("either::Either"):
            F[a] = poll_either

    def on_drop(eng, st, v, ty, pp):
        return drop_all(eng, st, v, ty, pp)
    O["#drop"] = on_drop

    # ---- building the command
    def upd(eng, st, a, f):
        v = eng.deref_all(st, a[0])
        if v.tag == "V" and v.a[0] == "proc:cmd":
            new = T_("V", "proc:cmd", 0, f(*v.a[2]))
            if a[0].tag == "ref":
                setref(eng, st, a[0], new)
                return [(st, a[0])]
            return [(st, new)]
        return None

    def key(n):
        return ["Command::" + n]

    def reg(names, h):
        for n in names:
            for k in key(n):
                O[k] = h
    reg(["new"], lambda eng, st, a, info: [(st, T_("V", "proc:cmd", 0, (strip(eng, st, a[0]), COLL("vec", (), I(0)), T_("tup", ()))))])

    def strip(eng, st, x):
        return eng.deref_all(st, x)

    def arg(eng, st, a, info):
        x = strip(eng, st, a[1])
        return upd(eng, st, a, lambda pr, ar, fl: (pr, COLL("vec", tuple(ar.a[1]) + (ONE(NOKEY, x),), ladd(ar.a[2], I(1))), fl))

    def args(eng, st, a, info):
        x = strip(eng, st, a[1])
        if x.tag == "it_coll":
            x = M.pure_whole(x) or x
        if x.tag == "coll" and x.a[0] == "vec":
            its, n = tuple(x.a[1]), x.a[2]
        elif x.tag in ("arr", "tup"):
            its, n = tuple(ONE(NOKEY, strip(eng, st, g)) for g in x.a[0]), I(len(x.a[0]))
        else:
            its, n = (M.BASE(x),), LEN(x)
        return upd(eng, st, a, lambda pr, ar, fl: (pr, COLL("vec", tuple(ar.a[1]) + its, ladd(ar.a[2], n)), fl))

    def argv_ok(eng, st, ar):
        segs = list(ar.a[1])
        if len(segs) != 3 or segs[1].tag != "one" or segs[2].tag != "one":
            return False
        s0 = segs[0]
        if s0.tag == "all":
            Pv, lo, hi, alts = s0.a
            if lo is not I(0) or eng.ev(st, EQ0(lsub(hi, LEN(c.args)))) is not True or len(alts) != 1 or len(alts[0].a[1]) != 1 or alts[0].a[1][0].tag != "one":
                return False
            x = alts[0].a[1][0].a[1]
            if x is not T_("at", c.args, Pv) and x is not T_("at", c.args, lin_of(Pv)):
                return False
        elif s0.tag != "base" or s0.a[0] is not c.args:
            return False
        return strip(eng, st, segs[1].a[1]) is app("json", c.value) and strip(eng, st, segs[2].a[1]) is app("str", c.seed)

    def flag(n):
        def h(eng, st, a, info):
            x = tuple(strip(eng, st, y) for y in a[1:])
            return upd(eng, st, a, lambda pr, ar, fl: (pr, ar, T_("tup", fl.a[0] + (T_("tup", (S(n),) + x),))))
        return h
    reg(["arg"], arg)
    reg(["args"], args)
    for n in ("stdin", "stdout", "stderr", "kill_on_drop", "process_group", "env", "envs", "env_clear", "env_remove", "current_dir", "arg0"):
        reg([n], flag(n))
    O["AsyncCommandGroup::group"] = lambda eng, st, a, info: [(st, T_("V", "proc:grp", 0, (a[0],)))]
    O["Stdio::piped"] = lambda eng, st, a, info: [(st, S("piped"))]
    O["Stdio::null"] = lambda eng, st, a, info: [(st, S("null"))]
    O["Stdio::inherit"] = lambda eng, st, a, info: [(st, S("inherit"))]

    # ---- starting
    def spawn(group):
        def h(eng, st, a, info):
            v = eng.deref_all(st, a[0])
            if v.tag == "V" and v.a[0] == "proc:grp":
                v = eng.deref_all(st, v.a[2][0])
                grp = True
            else:
                grp = group
            if v.tag != "V" or v.a[0] != "proc:cmd":
                return None
            pr, ar, fl = v.a[2]
            fl = {f.a[0][0].a[0]: f.a[0][1:] for f in fl.a[0]}
            if "process_group" in fl and fl["process_group"][0] is I(0):
                grp = True
            c.req(eng, st, "C07/leader", grp, "the objective function is started as the leader of a process group of its own")
            c.req(eng, st, "C07/one-child", G(st, "child") is UNIT, "an evaluation starts one process")
            c.req(eng, st, "C16/program", pr is c.prog, "the program started is the configured one", (pr,))
            c.req(eng, st, "C16/argv", argv_ok(eng, st, ar), "the arguments are the user's arguments, the JSON parameters and the seed, in this order", [ar])
            for n in ("stdout", "stderr"):
                c.req(eng, st, "C16/" + n, n in fl and fl[n][0] is S("piped"), "the child's %s is captured" % n)
            bad = st.copy()
            setg(bad, "spawnerr", TRUE)
            y = eng.sym(ppx(info, "pid"), ("pid",))
            eng.add_ge(st, ladd(lin_of(y), I(-1)))
            eng.add_ge(st, lsub(I((1 << 31) - 1), lin_of(y)))
            ch = T_("V", "proc:child", 0, (y,))
            setg(st, "child", y)
            return [(st, OK(ch)), (bad, ERR(eng.sym(ppx(info, "e"), ("ioerr",))))]
        return h

    def norm(x):
        if x.tag == "y" and False:
            return x
        return x
    O["AsyncCommandGroup::group_spawn"] = spawn(True)
    O["AsyncCommandGroupBuilder::spawn"] = spawn(True)
    O["Command::spawn"] = spawn(False)
    O["AsyncCommandGroupBuilder::kill_on_drop"] = lambda eng, st, a, info: [(st, a[0])]

    def child_id(eng, st, a, info):
        v = eng.deref_all(st, a[0])
        if v.tag != "V" or v.a[0] != "proc:child":
            return None
        y = lin_of(v.a[2][0])
        if G(st, "waited") is TRUE:
            return [(st, NONE)]
        return [(st, SOME(y))]
    for k in ("AsyncGroupChild::id", "Child::id"):
        O[k] = child_id
    for k in ("AsyncGroupChild::inner", "AsyncGroupChild::into_inner"):
        O[k] = lambda eng, st, a, info: [(st, a[0])]

    # ---- json and strings
    def to_string(eng, st, a, info):
        v = eng.deref_all(st, a[0])
        return [(st, OK(app("json", v)))]
    O["serde_json::to_string"] = to_string
    O["ser::to_string"] = to_string

    def tostr(eng, st, a, info):
        v = eng.deref_all(st, a[0])
        if v is c.value:
            return [(st, app("json", v))]
        if v.tag == "i":
            return [(st, app("str", v))]
        if v.tag == "app" and v.a[0].a[0] in ("json", "str"):
            return [(st, v)]
        return None
    O["ToString::to_string"] = tostr
    ident = lambda eng, st, a, info: [(st, eng.deref_all(st, a[0]))] if eng.deref_all(st, a[0]).tag == "app" else None
    for k in ("ToOwned::to_owned", "OsStr::to_os_string", "Into::into", "From::from", "Clone::clone", "OsString::from", "AsRef::as_ref", "OsString::as_os_str", "Deref::deref", "OsStr::new", "OsString::as_ref"):
        O[k] = ident

    # ---- waiting
    O["AsyncGroupChild::wait_with_output"] = lambda eng, st, a, info: [(st, FUT("wait", a[0], TRUE))]
    O["AsyncGroupChild::wait"] = lambda eng, st, a, info: [(st, FUT("wait", a[0], FALSE))]
    O["Child::wait_with_output"] = O["AsyncGroupChild::wait_with_output"]
    O["Child::wait"] = O["AsyncGroupChild::wait"]

    def poll_wait(eng, st, v, pp):
        if G(st, "cancel") is TRUE:
            return [(st, None)]
        if G(st, "ready") is TRUE:
            return [(st, eng.sym(pp + ("rewait",), ("unk", "polled again")))]
        pend = st.copy()
        setg(pend, "pw", TRUE)
        good, bad = st.copy(), st.copy()
        setg(good, "waited", TRUE)
        setg(good, "ready", TRUE)
        setg(bad, "ready", TRUE)
        out = eng.sym(pp + ("out",), ("output",))
        setg(good, "out", out)
        r = out if v.a[2][1] is TRUE else eng.sym(pp + ("status",), ("status",))
        return [(pend, None), (good, OK(r)), (bad, ERR(eng.sym(pp + ("ioerr",), ("ioerr",))))]
    F["fut:wait"] = poll_wait

    # ---- timer and abort
    def sleep(eng, st, a, info):
        d = eng.deref_all(st, a[0])
        c.req(eng, st, "C07/limit", c.timed and d is c.limitv, "the timer runs for the configured time limit", (d,))
        return [(st, FUT("sleep"))]
    for k in ("time::sleep", "sleep::sleep", "Delay::new"):
        O[k] = sleep

    def poll_sleep(eng, st, v, pp):
        if G(st, "cancel") is TRUE:
            return [(st, None)]
        pend = st.copy()
        setg(pend, "ps", TRUE)
        if G(st, "timeout") is TRUE:
            return [(st, UNIT)]
        setg(st, "timeout", TRUE)
        return [(pend, None), (st, UNIT)]
    F["fut:sleep"] = poll_sleep

    def timeout(eng, st, a, info):
        d = eng.deref_all(st, a[0])
        c.req(eng, st, "C07/limit", c.timed and d is c.limitv, "the timer runs for the configured time limit", (d,))
        return [(st, FUT("timeout", a[1]))]
    for k in ("time::timeout", "timeout::timeout"):
        O[k] = timeout

    def poll_timeout(eng, st, v, pp):
        out = []
        for s, r in poll_value(eng, st, v.a[2][0], pp + ("to",)):
            if r is not None:
                out.append((s, OK(r)))
            elif G(s, "cancel") is TRUE:
                out.append((s, None))
            else:
                out += [(s2, r2 if r2 is None else ERR(UNIT)) for s2, r2 in poll_sleep(eng, s, None, pp)]
        return out
    F["fut:timeout"] = poll_timeout

    O["Receiver::recv"] = lambda eng, st, a, info: [(st, FUT("abort"))]
    O["Receiver::recv_direct"] = O["Receiver::recv"]

    def poll_abort(eng, st, v, pp):
        if G(st, "cancel") is TRUE:
            return [(st, None)]
        pend = st.copy()
        setg(pend, "pa", TRUE)
        setg(st, "abort", TRUE)
        return [(pend, None), (st, eng.sym(pp + ("ab",), ("abortres",)))]
    F["fut:abort"] = poll_abort

    def never(eng, st, v, pp):
        return [(st, None)]
    F["fut:never"] = never

    # ---- killing and reaping
    def pidarg(eng, st, x):
        x = eng.deref_all(st, x)
        if x.tag == "V" and len(x.a[2]) == 1:
            x = eng.deref_all(st, x.a[2][0])
        if x.tag == "app" and x.a[0].a[0] == "pid":
            x = x.a[1]
        return lin_of(x) if x.tag in ("i", "y") else None
    O["Pid::from_raw"] = lambda eng, st, a, info: [(st, app("pid", lin_of(eng.deref_all(st, a[0]))))]
    O["Pid::as_raw"] = lambda eng, st, a, info: [(st, pidarg(eng, st, a[0]))]

    def kill(group):
        def h(eng, st, a, info):
            pid, sig = pidarg(eng, st, a[0]), eng.deref_all(st, a[1])
            if sig.tag == "V" and sig.a[0].endswith("Option") and sig.a[1] == 1:
                sig = eng.deref_all(st, sig.a[2][0])
            ch = G(st, "child")
            if ch is UNIT or pid is None:
                c.req(eng, st, "C07/kill-target", False, "only the evaluation's own process group is killed", (eng.deref_all(st, a[0]),))
                return [(st, OK(UNIT)), (st.copy(), ERR(eng.sym(ppx(info, "e"))))]
            own = EQ0(lsub(pid, lin_of(ch)))
            if not group:
                own = EQ0(ladd(pid, lin_of(ch)))
            c.req(eng, st, "C07/kill-target", own, "the signal goes to the child's whole process group", (pid,))
            isk = sig.tag == "V" and sig.a[0] == SIGADT and sig.a[1] == SIGK
            c.req(eng, st, "C07/sigkill", isk, "the signal is SIGKILL", (sig,))
            c.req(eng, st, "C07/in-time", G(st, "timeout") is TRUE or G(st, "abort") is TRUE or G(st, "cancel") is TRUE or G(st, "ready") is TRUE, "an evaluation that is still within its time limit is not killed")
            if isk and eng.ev(st, own) is True:
                setg(st, "killed", TRUE)
            s2, s3 = st.copy(), st.copy()
            setg(s2, "gone", TRUE)
            setg(s3, "killfail", TRUE)
            er = errno("ESRCH")
            out = [(st, OK(UNIT)), (s3, ERR(eng.sym(ppx(info, "e"), ("errno",))))]
            if er is not None:
                out.append((s2, ERR(er)))
            return out
        return h

    def errno(name):
        for a in p.adts:
            if a.endswith("Errno"):
                for i, v in enumerate(p.adts[a]["variants"]):
                    if v["name"] == name:
                        return V(a, i)
        return None
    O["signal::killpg"] = kill(True)
    O["signal::kill"] = kill(False)

    def waitpid(eng, st, a, info):
        pid, opt = pidarg(eng, st, a[0]), eng.deref_all(st, a[1]) if len(a) > 1 else NONE
        ch = G(st, "child")
        own = pid is not None and ch is not UNIT and eng.ev(st, EQ0(lsub(pid, lin_of(ch)))) is True
        if pid is not None and ch is not UNIT and isconst(lsub(pid, I(0))) is False and eng.ev(st, EQ0(ladd(pid, lin_of(ch)))) is True:
            own = True
        c.req(eng, st, "C15/wait-blocks", G(st, "killed") is TRUE or G(st, "waited") is TRUE, "the executor is only blocked on a child that has been killed")
        if own and eng.disc_of(st, opt) == 0:
            setg(st, "reaped", TRUE)
        s2 = st.copy()
        setg(s2, "waitfail", TRUE)
        return [(st, OK(eng.sym(ppx(info, "ws")))), (s2, ERR(eng.sym(ppx(info, "we"), ("errno",))))]
    O["wait::waitpid"] = waitpid

    # AsyncGroupChild's own kill: SIGKILL to the group, then wait
    def ckill(fut):
        def h(eng, st, a, info):
            v = eng.deref_all(st, a[0])
            if v.tag != "V" or v.a[0] != "proc:child":
                return None
            c.req(eng, st, "C07/in-time", G(st, "timeout") is TRUE or G(st, "abort") is TRUE or G(st, "cancel") is TRUE or G(st, "ready") is TRUE, "an evaluation that is still within its time limit is not killed")
            setg(st, "killed", TRUE)
            if fut:
                return [(st, FUT("wait", a[0], FALSE))]
            s2 = st.copy()
            setg(s2, "killfail", TRUE)
            return [(st, OK(UNIT)), (s2, ERR(eng.sym(ppx(info, "e"))))]
        return h
    O["AsyncGroupChild::kill"] = ckill(True)
    O["AsyncGroupChild::start_kill"] = ckill(False)

    # ---- the output
    def success(eng, st, a, info):
        if G(st, "success") is not None:
            return [(st, G(st, "success"))]
        s2 = st.copy()
        setg(st, "success", TRUE)
        setg(s2, "success", FALSE)
        return [(st, TRUE), (s2, FALSE)]
    O["ExitStatus::success"] = success

    def exit_code(eng, st, a, info):
        out = []
        for s, v in success(eng, st, a, info) if G(st, "success") is None else [(st, G(st, "success"))]:
            if v is TRUE:
                out.append((s, SOME(I(0))))
                continue
            y = lin_of(eng.sym(ppx(info, "code"), ("code",)))
            s2 = s.copy()
            out.append((s2, NONE))
            for lo, hi in ((1, 255), (-(1 << 31), -1)):
                s3 = s.copy()
                if eng.add_ge(s3, ladd(y, I(-lo))) and eng.add_ge(s3, lsub(I(hi), y)):
                    out.append((s3, SOME(y)))
        return out
    O["ExitStatus::code"] = exit_code

    def from_slice(eng, st, a, info):
        src = eng.deref_all(st, a[0])
        out = G(st, "out")
        c.req(eng, st, "C16/stdout", out is not None and any(x is out for x in subterms(src)), "the child's stdout is what is parsed", (src,))
        r = eng.sym(ppx(info, "parsed"), ("parsed",))
        s2 = st.copy()
        setg(st, "parsed", r)
        setg(s2, "parsed", FALSE)
        f = fld(r, 0, 0)
        res = []
        c.parsedty = info.dty
        return [(st, OK(r)), (s2, ERR(eng.sym(ppx(info, "perr"))))]
    for k in ("serde_json::from_slice", "de::from_slice", "serde_json::from_str", "de::from_str"):
        O[k] = from_slice

    m = None
    for b in p.bodies:
        if b.endswith("::is_json_object"):
            m = b
    c.objfn = m
    if m:
        def isobj(eng, st, a, info):
            s2 = st.copy()
            src = eng.deref_all(st, a[0])
            c.req(eng, st, "C16/object-source", G(st, "out") is not None and any(x is G(st, "out") for x in subterms(src)), "it is the child's output that is checked to be an object", (src,))
            setg(st, "object", TRUE)
            setg(s2, "object", FALSE)
            return [(st, TRUE), (s2, FALSE)]
        O[m] = isobj
