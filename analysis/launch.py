"""Abstract interpretation of the layers around the controller: the task that turns commands into the
abort signal, the launcher that sets up runtime, time limit, interrupt handler and report writer, the
report writer itself, and the adapter that evaluates in-process objective functions."""
import json
import re
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
from models import D, ppx
import asyncm
from asyncm import G, setg, gcell, FUT, CH, PENDING, poll_value, run_cor, base_engine
import ctrl, nodes, proc
import prog as P
from ctrl import ONESHOT, ITEM, CFG, has_adt

CMD = "cambrian::message::Command"


def app(n, *a):
    return T_("app", S(n), *a)


def root_of(b):
    while True:
        m = re.match(r"(.*)::\{closure#\d+\}$", b)
        if not m:
            return b
        b = m.group(1)


def callers(p, f):
    out = set()
    for b in p.bodies:
        if b.startswith("cambrian::") and f in p.refs(b) and root_of(b) != f:
            out.add(root_of(b))
    return out


def chan_of(p, t, suffix, elem):
    """is t (through references) a channel end of the given element type"""
    while t.tag == "ref":
        t = t.a[0]
    return t.tag == "adt" and t.a[0].endswith(suffix) and any(x.tag == "adt" and x.a[0] == elem for x in t.a[1])


def inputs(p, f):
    b = p.bodies[f]
    return b.ltys[1:1 + b.argc]


def async_launchers(p):
    """the async function that starts the controller and takes the command channel"""
    es = ctrl.entry_of(p)
    if len(es) != 1:
        return None, []
    seen, work, out = set(), [es[0]], set()
    while work:
        f = work.pop()
        for c in callers(p, f):
            if c in seen or c not in p.bodies:
                continue
            seen.add(c)
            if any(chan_of(p, t, "mpsc::Receiver", CMD) for t in inputs(p, c)):
                out.add(c)
            else:
                work.append(c)
    return es[0], sorted(out)


def sync_launchers(p):
    """the plain function that starts the launch task and takes the termination criteria"""
    c, a = async_launchers(p)
    if len(a) != 1:
        return None, []
    seen, work, out = set(), [a[0]], set()
    while work:
        f = work.pop()
        for g in callers(p, f):
            if g in seen or g not in p.bodies:
                continue
            seen.add(g)
            if any(E._peel(t).tag == "bool" for t in inputs(p, g)):
                out.add(g)
            else:
                work.append(g)
    return a[0], sorted(out)


def writers(p):
    """local functions that take the receiving end of the report channel (called by the launcher)"""
    out = []
    for f, b in p.bodies.items():
        if f.startswith("cambrian::") and "{closure" not in f and any(chan_of(p, t, "mpsc::Receiver", ITEM) for t in inputs(p, f)):
            out.append(f)
    return sorted(out)


def compilers(p):
    """local functions that turn the criteria into a fallible compiled form: take nothing but a generic argument and yield
    Result<struct holding an optional duration, ..>"""
    out = []
    for f, b in p.bodies.items():
        if not f.startswith("cambrian::") or "{closure" in f:
            continue
        t = b.ltys[0]
        if t.tag == "adt" and t.a[0].endswith("result::Result"):
            fs = fields_of(p, t.a[1][0])
            if fs and any(is_opt(x, "Duration") for n, x in fs) and any(x.tag == "bool" for n, x in fs):
                out.append(f)
    return sorted(out)


def fields_of(p, t):
    if t.tag == "adt" and t.a[0] in p.adts and t.a[0].startswith("cambrian::") and len(p.adts[t.a[0]]["variants"]) == 1:
        return [(n, p._subst(x, t.a[1])) for n, x in p.adts[t.a[0]]["variants"][0]["fields"]]
    if t.tag == "tuple":
        return [(str(i), x) for i, x in enumerate(t.a[0])]
    return None


def is_opt(t, suffix):
    return t.tag == "adt" and t.a[0].endswith("option::Option") and t.a[1][0].tag == "adt" and t.a[1][0].a[0].endswith(suffix)


class Base:
    limit = None

    def __init__(self, prog):
        self.p = prog
        self.exits = []

    emit = proc.Proc.emit
    req = proc.Proc.req
    obligations = proc.Proc.obligations

    def engine(self):
        e = base_engine(self.p, nodes.NodeDomain(self.p))
        self.e = e
        e.ctl = self
        e.limit_steps = 200000
        e.add_fin = lambda st, y: st.fi.__setitem__(y, (-FMAX, FMAX, False))
        for a in self.p.adts:
            if a.endswith("either::Either"):
                e.futs[a] = lambda eng, st, v, pp: poll_value(eng, st, v.a[2][0], pp + ("ei",))
        e.overrides["Clone::clone"] = clone_chan
        e.overrides["clone::Clone::clone"] = clone_chan
        e.overrides["Add::add"] = add_text
        return e

    def opaque(self, t, path):
        """an input that is only passed on"""
        while t.tag == "ref":
            t = t.a[0]
        if t.tag == "int":
            return lin_of(T_("y", path, (), ("u",)))
        return T_("y", path, (), ())

    def same(self, e, st, a, b):
        """the same value, possibly taken apart and rebuilt"""
        a, b = e.deref_all(st, a), e.deref_all(st, b)
        if a is b:
            return True
        if a.tag == "i" or b.tag == "i":
            return e.ev(st, EQ0(lsub(lin_of(a), lin_of(b)))) is True
        if a.tag == "V" and (a.a[0].endswith("Option") or a.a[0].endswith("Result")):
            d = e.disc_of(st, b)
            return d == a.a[1] and all(self.same(e, st, x, fld(b, d, i)) for i, x in enumerate(a.a[2]))
        if a.tag == "V" and b.tag == "y" and a.a[0] in self.p.adts and len(self.p.adts[a.a[0]]["variants"]) == 1:
            return all(self.same(e, st, x, fld(b, 0, i)) for i, x in enumerate(a.a[2]))
        return False

    def finish(self):
        self.panics = self.e.all_events("panic")
        return self


def clone_chan(eng, st, a, info):
    r = eng.deref_all(st, a[0])
    if r.tag == "V" and r.a[0].startswith("chan:"):
        return [(st, r)]
    return None


def add_text(eng, st, a, info):
    t = E._peel(info.atys[0]) if info.atys else None
    if t is None or t.tag != "adt" or not t.a[0].endswith("String"):
        return None
    return [(st, app("cat", eng.deref_all(st, a[0]), eng.deref_all(st, a[1])))]


# ---- the task that turns commands into the abort signal ----------------------------------------------
class Task(Base):
    def run(self, fn, entry):
        e = self.engine()
        p = self.p
        st = State()
        O, F = e.overrides, e.futs
        args = []
        self.by = {}
        for i, t in enumerate(inputs(p, fn)):
            args.append(self.param(t, ("in", i)))
        for n in ("term", "aborted", "cp", "closed", "ctrl", "unk"):
            setg(st, n, FALSE)

        def oneshot(eng, st, a, info):
            return [(st, T_("tup", (CH("osend"), CH("orecv"))))]
        O["oneshot::channel"] = oneshot

        def send(eng, st, a, info):
            r = eng.deref_all(st, a[0])
            if r.tag == "V" and r.a[0] == "chan:osend":
                setg(st, "aborted", TRUE)
                return [(st, OK(UNIT)), (st.copy(), ERR(UNIT))]
            return None
        O["Sender::send"] = send

        def is_canceled(eng, st, a, info):
            r = eng.deref_all(st, a[0])
            return [(st, FALSE)] if r.tag == "V" and r.a[0] == "chan:osend" else None
        O["Sender::is_canceled"] = is_canceled

        vs = p.adts[CMD]["variants"]
        tv = [i for i, v in enumerate(vs) if v["name"] == "Terminate"]

        def next_cmd(eng, st, v, pp, closed):
            ch = eng.deref_all(st, v.a[2][0])
            if not (ch.tag == "V" and ch.a[0] == "chan:cmds"):
                setg(st, "unk", TRUE)
                return [(st, eng.sym(pp + ("next",), ("unk", "next")))]
            setg(st, "cp", TRUE)
            out = [(st.copy(), None)]
            for i in range(len(vs)):
                if vs[i]["fields"]:
                    raise EngineLimit("a command with fields")
                s = st.copy()
                if i in tv:
                    setg(s, "term", TRUE)
                out.append((s, closed[0](T_("V", CMD, i, ()))))
            s = st.copy()
            setg(s, "closed", TRUE)
            out.append((s, closed[1]))
            return out
        F["fut:next"] = lambda eng, st, v, pp: next_cmd(eng, st, v, pp, (SOME, NONE))
        F["fut:next_some"] = lambda eng, st, v, pp: [(s, r) if r is None or r.tag != "V" or r.a[0].endswith("Option") is False else (s, r) for s, r in next_cmd(eng, st, v, pp, (lambda x: x, None))]

        def controller(eng, st, a, info):
            for t, x, w in zip(inputs(p, entry), a, range(99)):
                self.passed(eng, st, t, x, "argument %d" % w)
            self.req(eng, st, "C04/one-controller", G(st, "ctrl") is FALSE, "one controller is started")
            setg(st, "ctrl", TRUE)
            return [(st, FUT("ctrl"))]
        O[entry] = controller

        def poll_ctrl(eng, st, v, pp):
            if G(st, "term") is TRUE:
                self.req(eng, st, "C04/command-aborts", G(st, "aborted") is TRUE, "once a terminate command was received the abort signal is sent before the controller goes on")
            else:
                self.req(eng, st, "C04/no-spurious-abort", G(st, "aborted") is FALSE, "the abort signal is only sent for a terminate command")
                self.req(eng, st, "C04/command-first", G(st, "cp") is TRUE, "the controller only goes on after the command channel has been looked at in the same poll")
            setg(st, "cp", FALSE)
            r = T_("y", "ctrl-result", (), ())
            return [(st.copy(), None), (st, r)]
        F["fut:ctrl"] = poll_ctrl

        e.same_pending = lambda k0, k1: strip(k0) == strip(k1)

        def strip(k):
            return frozenset((x, y) for x, y in k if x is not gcell("cp") and x.tag == "g")
        try:
            for s, r in e.run_fn(st, fn, (), tuple(args), T_("fr", "root")):
                r = e.deref_all(s, r)
                for s2, v in poll_value(e, s, r, ("root",)):
                    if v is not None:
                        self.exit(e, s2, v)
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()

    def param(self, t, path):
        p = self.p
        if chan_of(p, t, "mpsc::Receiver", CMD):
            return CH("cmds")
        if chan_of(p, t, "mpsc::Sender", ITEM):
            return CH("items")
        x = t
        while x.tag == "ref":
            x = x.a[0]
        fs = fields_of(p, x) if x.tag == "adt" and x.a[0] not in (CFG, "cambrian::spec::Spec") else None
        if fs and any(has_adt(p, ft, "mpsc::Receiver", own=True) or has_adt(p, ft, "mpsc::Sender", own=True) or ft.tag == "adt" and ft.a[0].endswith("Option") for n, ft in fs):
            return T_("V", x.a[0], 0, tuple(self.param(ft, path + (i,)) for i, (n, ft) in enumerate(fs)))
        k = self.kind(x)
        v = self.opaque(x, ("in", k))
        self.by.setdefault(k, v)
        return v

    def kind(self, t):
        if t.tag == "adt" and t.a[0].endswith("option::Option"):
            x = t.a[1][0]
            while x.tag == "ref":
                x = x.a[0]
            return "opt:" + (x.a[0] if x.tag == "adt" else x.tag)
        if t.tag == "adt":
            return t.a[0]
        return t.tag

    def passed(self, e, st, t, x, w=None):
        """what the controller receives"""
        p = self.p
        while t.tag == "ref":
            t = t.a[0]
        x = e.deref_all(st, x)
        if t.tag == "adt" and t.a[0].endswith(ONESHOT):
            self.req(e, st, "C04/passes-signal", x is CH("orecv"), "the controller listens to the abort signal", (x,))
            return
        if chan_of(p, t, "mpsc::Sender", ITEM):
            self.req(e, st, "C14/passes-report", x is CH("items"), "the controller reports to the report channel", (x,))
            return
        k = self.kind(t)
        if k in self.by:
            cs, what = argname(k)
            for c in cs:
                self.req(e, st, "%s/passes/%s" % (c, what.replace(" ", "-")), self.same(e, st, x, self.by[k]), "the controller is given the launcher's %s" % what, (x, self.by[k]))
            return
        fs = fields_of(p, t)
        if fs:
            for i, (n, ft) in enumerate(fs):
                self.passed(e, st, ft, fld(x, 0, i), n)

    def exit(self, e, st, r):
        self.exits.append(r)
        r = e.deref_all(st, r)
        y = T_("y", "ctrl-result", (), ())
        if r is y or r.tag == "V" and any(z is y for z in subterms(r)) and self.same(e, st, r, y):
            for c in ("C02", "C04", "C06"):
                self.req(e, st, c + "/returns", True, "the run's result is the controller's result")
            return
        for c in ("C02", "C04", "C06"):
            self.req(e, st, c + "/returns", G(st, "closed") is TRUE, "the run's result is the controller's result, unless the client hung up", (r,))


ARGS = {
    "opt:int": (("C03",), "maximum number of evaluations"),
    "opt:float": (("C04",), "target objective value"),
    "Value": (("C11",), "initial guess"),
    "AlgoConfig": (("C02", "C05"), "algorithm configuration"),
    "Spec": (("C08",), "specification"),
    "param": (("C08",), "objective function"),
}


def argname(k):
    return ARGS.get(k.split("::")[-1], (("C08",), k.split("::")[-1]))


# ---- the launcher: runtime, time limit, interrupt handler, report writer ------------------------------
RTB = "rt:builder"


class Launcher(Base):
    def __init__(self, prog, inproc, after, onsig):
        Base.__init__(self, prog)
        self.inproc, self.after, self.onsig = inproc, after, onsig

    def run(self, fn, task, writer, compiler):
        e = self.engine()
        p = self.p
        st = State()
        self.by = {}
        O, F = e.overrides, e.futs
        for n in ("compiled", "cerr", "fired", "told", "handler", "launched", "done", "reported", "rerr", "herr", "pl", "pr", "pd", "unk", "armed", "inside"):
            setg(st, n, FALSE)
        setg(st, "rt", UNIT)
        setg(st, "workers", I(0))
        self.result = T_("y", "launch-result", (), ())
        self.duration = T_("y", "terminate-after", (), ())
        e.add_ge(st, ladd(lin_of(self.workers()), I(-1)))
        args = [self.param(t, ("in", i)) for i, t in enumerate(inputs(p, fn))]
        nc = self.workers()

        # -- criteria
        def compile_(eng, st, a, info):
            s2 = st.copy()
            t = info.dty.a[1][0]
            fs = []
            for n, ft in fields_of(p, t):
                if ft.tag == "bool":
                    fs.append(B(self.onsig))
                elif is_opt(ft, "Duration"):
                    fs.append(SOME(self.duration) if self.after else NONE)
                else:
                    y = T_("y", ("compiled", self.kind(ft)), (), ())
                    self.by[self.kind(ft)] = y
                    fs.append(y)
            er = T_("y", "compile-error", (), ())
            setg(s2, "cerr", TRUE)
            setg(st, "compiled", TRUE)
            v = T_("tup", tuple(fs)) if t.tag == "tuple" else T_("V", t.a[0], 0, tuple(fs))
            return [(st, OK(v)), (s2, ERR(er))]
        O[compiler] = compile_

        # -- channels
        def channel(eng, st, a, info):
            t = info.dty
            ts = t.a[0] if t.tag == "tuple" else ()
            if ts and chan_of(p, ts[0], "Sender", CMD):
                k = "cmds"
            elif ts and chan_of(p, ts[0], "Sender", ITEM):
                k = "items"
            else:
                return None
            return [(st, T_("tup", (CH(k + "_tx"), CH(k + "_rx"))))]
        for k in ("mpsc::channel", "mpsc::unbounded"):
            O[k] = channel

        def is_cmd(eng, st, x):
            x = eng.deref_all(st, x)
            return x.tag == "V" and x.a[0] == "chan:cmds_tx"

        def deliver(eng, st, x, pp):
            x = eng.deref_all(st, x)
            vs = p.adts[CMD]["variants"]
            if x.tag == "V" and x.a[0] == CMD and vs[x.a[1]]["name"] == "Terminate":
                setg(st, "told", TRUE)

        def poll_send(eng, st, v, pp):
            if not is_cmd(eng, st, v.a[2][0]):
                setg(st, "unk", TRUE)
                return [(st, eng.sym(pp + ("send",), ("unk", "send")))]
            deliver(eng, st, v.a[2][1], pp)
            if G(st, "done") is TRUE:
                return [(st, ERR(eng.sym(pp + ("hungup",))))]
            return [(st, OK(UNIT))]
        F["fut:send"] = poll_send

        def try_send(eng, st, a, info):
            if not is_cmd(eng, st, a[0]):
                return None
            deliver(eng, st, a[1], info.pp)
            return [(st, OK(UNIT) if G(st, "done") is not TRUE else ERR(eng.sym(info.pp + ("hungup",))))]
        O["Sender::try_send"] = try_send
        O["Sender::start_send"] = try_send
        O["UnboundedSender::unbounded_send"] = try_send

        # -- the tasks
        def start(eng, st, a, info):
            self.req(eng, st, "C03/criteria-first", G(st, "compiled") is TRUE, "the criteria are accepted before the run is set up")
            for t, x, w in zip(inputs(p, task), a, range(99)):
                self.passed(eng, st, t, x)
            self.req(eng, st, "C03/one-launch", G(st, "launched") is FALSE, "one run is set up")
            setg(st, "launched", TRUE)
            return [(st, FUT("launch"))]
        O[task] = start

        def check(eng, st):
            if G(st, "fired") is TRUE:
                self.req(eng, st, "C04/time-limit", G(st, "told") is TRUE, "once the time limit has passed the run is told to terminate")
            else:
                self.req(eng, st, "C04/no-spurious", G(st, "told") is FALSE, "the run is only told to terminate by the time limit or an interrupt")
            if self.onsig:
                self.req(eng, st, "C04/interrupt", G(st, "handler") is TRUE, "with the interrupt criterion an interrupt tells the run to terminate")
            if self.inproc:
                self.req(eng, st, "C05/workers", G(st, "rt") is not UNIT and G(st, "rt") is S("multi") and eng.ev(st, GE0(lsub(G(st, "workers"), nc))) is True,
                         "in-process evaluation runs on at least num_concurrent worker threads", (G(st, "workers"),))

        def poll_launch(eng, st, v, pp):
            if G(st, "done") is TRUE:
                return [(st, None)]
            check(eng, st)
            setg(st, "pl", TRUE)
            s2 = st.copy()
            setg(s2, "done", TRUE)
            return [(st, None), (s2, self.result)]
        F["fut:launch"] = poll_launch

        def report(eng, st, a, info):
            ok = any(eng.deref_all(st, x) is CH("items_rx") for x in a)
            self.req(eng, st, "C14/writer-channel", ok, "the report writer reads the report channel")
            for t, x in zip(inputs(p, writer), a):
                k = self.kind(self.peel(t))
                if not chan_of(p, t, "mpsc::Receiver", ITEM) and k in self.by:
                    self.req(eng, st, "C14/writer-files", self.same(eng, st, x, self.by[k]), "the report writer gets the caller's file names", (x,))
            return [(st, FUT("report"))]
        O[writer] = report

        def poll_report(eng, st, v, pp):
            if G(st, "reported") is TRUE:
                return [(st, None)]
            setg(st, "pr", TRUE)
            s2 = st.copy()
            setg(s2, "reported", TRUE)
            setg(s2, "rerr", TRUE)
            out = [(s2, ERR(T_("y", "report-error", (), ())))]
            if G(st, "done") is TRUE:
                setg(st, "reported", TRUE)
                out.append((st, OK(UNIT)))
            else:
                out.append((st, None))
            return out
        F["fut:report"] = poll_report

        # -- time limit
        def delay(eng, st, a, info):
            self.req(eng, st, "C04/limit-value", self.same(eng, st, a[0], self.duration), "the time limit is the configured one", (a[0],))
            setg(st, "armed", TRUE)
            return [(st, FUT("delay"))]
        for k in ("Delay::new", "time::sleep", "sleep::sleep"):
            O[k] = delay

        def poll_delay(eng, st, v, pp):
            if G(st, "fired") is TRUE:
                return [(st, None)]
            setg(st, "pd", TRUE)
            s2 = st.copy()
            setg(s2, "fired", TRUE)
            return [(st, None), (s2, UNIT)]
        F["fut:delay"] = poll_delay
        F["fut:never"] = lambda eng, st, v, pp: [(st, None)]
        O["future::pending"] = lambda eng, st, a, info: [(st, FUT("never"))]
        O["pending::pending"] = O["future::pending"]

        FUSED = {"fut:launch": "done", "fut:report": "reported", "fut:delay": "fired"}

        def is_terminated(eng, st, a, info):
            v = eng.deref_all(st, a[0])
            while v.tag == "V" and v.a[0].endswith("either::Either"):
                v = eng.deref_all(st, v.a[2][0])
            if v.tag == "V" and v.a[0] in FUSED:
                return [(st, G(st, FUSED[v.a[0]]))]
            if v.tag == "V" and v.a[0] == "fut:never":
                return [(st, TRUE)]
            return None
        O["FusedFuture::is_terminated"] = is_terminated

        # -- suspension of the whole
        def start_hook(st):
            for n in ("pl", "pr", "pd"):
                setg(st, n, FALSE)

        def pend_hook(st):
            self.req(e, st, "C15/drives-run", G(st, "pl") is TRUE or G(st, "done") is TRUE, "while waiting, the run is driven forward")
            self.req(e, st, "C15/drives-writer", G(st, "pr") is TRUE or G(st, "reported") is TRUE, "while waiting, the report writer is driven forward")
            if self.after:
                self.req(e, st, "C04/limit-armed", G(st, "pd") is TRUE or G(st, "fired") is TRUE or G(st, "done") is TRUE, "while the run is going on its time limit is armed")
        e.poll_start_hook = start_hook
        e.poll_pending_hook = pend_hook
        e.same_pending = lambda k0, k1: strip(k0) == strip(k1)

        def strip(k):
            return frozenset((x, y) for x, y in k if x.tag == "g" and x not in PC)
        PC = {gcell(n) for n in ("pl", "pr", "pd")}

        # -- interrupts
        def set_handler(eng, st, a, info):
            s2 = st.copy()
            side = st.copy()
            setg(side, "told", FALSE)
            setg(side, "inside", TRUE)
            rs = eng.call_closure(side, a[0], (), info.pp + ("sig",))
            ok = bool(rs) and all(G(s, "told") is TRUE for s, r in rs)
            setg(st, "handler", B(ok))
            setg(s2, "herr", TRUE)
            return [(st, OK(UNIT)), (s2, ERR(eng.sym(info.pp + ("herr",))))]
        for k in ("ctrlc::set_handler", "ctrlc::try_set_handler"):
            O[k] = set_handler

        # -- runtimes
        def new_rt(kind):
            def h(eng, st, a, info):
                setg(st, "rt", S(kind))
                setg(st, "workers", I(0))
                return [(st, T_("V", RTB, 0, (S(kind),)))]
            return h
        O["Builder::new_multi_thread"] = new_rt("multi")
        O["Builder::new_current_thread"] = new_rt("single")

        def workers(eng, st, a, info):
            setg(st, "workers", lin_of(eng.deref_all(st, a[1])))
            return [(st, a[0])]
        O["Builder::worker_threads"] = workers
        for k in ("enable_all", "enable_io", "enable_time", "thread_name", "max_blocking_threads", "thread_stack_size"):
            O["Builder::" + k] = lambda eng, st, a, info: [(st, a[0])]
        O["Builder::build"] = lambda eng, st, a, info: [(st, OK(T_("V", "rt:runtime", 0, ())))]
        O["Runtime::new"] = lambda eng, st, a, info: [(st, OK(T_("V", "rt:runtime", 0, ())))]

        def block_on(eng, st, a, info):
            f = a[-1]
            return [(s, r) for s, r in poll_value(eng, st, f, info.pp + ("bo",)) if r is not None]
        for k in ("Runtime::block_on", "executor::block_on", "local_pool::block_on", "Handle::block_on"):
            O[k] = block_on

        try:
            for s, r in e.run_fn(st, fn, (), tuple(args), T_("fr", "root")):
                self.exit(e, s, e.deref_all(s, r))
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()

    def workers(self):
        return lin_of(T_("y", ("in", "cfg", "num_concurrent"), (), ("u",)))

    def peel(self, t):
        while t.tag == "ref":
            t = t.a[0]
        return t

    def param(self, t, path):
        t = self.peel(t)
        if t.tag == "bool":
            return B(self.inproc)
        if t.tag == "adt" and t.a[0] == CFG:
            fs = []
            for n, ft in self.p.adts[CFG]["variants"][0]["fields"]:
                fs.append(self.workers() if n == "num_concurrent" else self.opaque(ft, ("in", "cfg", n)))
            v = T_("V", CFG, 0, tuple(fs))
            self.by[CFG] = v
            return v
        k = self.kind(t)
        v = self.opaque(t, ("in", k) + ((path[-1],) if t.tag == "param" else ()))
        if t.tag != "param" or k not in self.by:
            self.by.setdefault(k, v)
        return v

    kind = Task.kind

    def passed(self, e, st, t, x):
        p = self.p
        t = self.peel(t)
        x = e.deref_all(st, x)
        if chan_of(p, t, "mpsc::Receiver", CMD):
            self.req(e, st, "C04/passes-commands", x is CH("cmds_rx"), "the run listens to the command channel", (x,))
            return
        if chan_of(p, t, "mpsc::Sender", ITEM):
            self.req(e, st, "C14/passes-report", x is CH("items_tx"), "the run reports to the report channel", (x,))
            return
        k = self.kind(t)
        if k == "param":
            return
        if k in self.by:
            cs, what = argname(k)
            for c in cs:
                self.req(e, st, "%s/launch-passes/%s" % (c, what.replace(" ", "-")), self.same(e, st, x, self.by[k]), "the run is given the caller's %s" % what, (x, self.by[k]))
            return
        for i, (n, ft) in enumerate(fields_of(p, t) or ()):
            self.passed(e, st, ft, fld(x, 0, i))

    def exit(self, e, st, r):
        self.exits.append(r)
        if G(st, "launched") is not TRUE or G(st, "pl") is not TRUE and G(st, "done") is not TRUE and G(st, "rerr") is not TRUE:
            bad = G(st, "cerr") is TRUE or G(st, "herr") is TRUE
            for s, ok, x in M.res_cases(e, st, r):
                self.req(e, s, "C03/refused", not ok and (bad or G(s, "launched") is not TRUE), "a run that is not started ends with an error", (x,))
                if G(st, "cerr") is TRUE:
                    self.req(e, s, "C16/criteria-refused", not ok and any(y is T_("y", "compile-error", (), ()) for y in subterms(x)), "criteria that are refused are the launcher's error", (x,))
            return
        if G(st, "rerr") is TRUE:
            for s, ok, x in M.res_cases(e, st, r):
                if s.disc.get(self.result) is not None and not ok:
                    continue
                self.req(e, s, "C14/writer-error", not ok, "a failure to write the report is the launcher's error", (x,))
            return
        for c in ("C02", "C04", "C06"):
            self.req(e, st, c + "/launch-returns", G(st, "done") is TRUE and self.same(e, st, r, self.result), "the launcher's result is the run's result", (r,))
        self.req(e, st, "C14/writer-drained", G(st, "reported") is TRUE, "the launcher only returns after the report writer has ended")


# ---- text built by formatting ---------------------------------------------------------------------------
def pieces(x):
    """[("lit", text) | ("arg", value, default formatting?)] of a text term, None when its making is not understood"""
    if isinstance(x, (str, bytes)):
        return [("lit", x if isinstance(x, str) else x.decode("utf8", "replace"))]
    if not isinstance(x, T):
        return None
    if x.tag == "s":
        return [("lit", x.a[0])]
    if x.tag == "ch" and x.a[0].isdigit():
        return [("lit", chr(int(x.a[0])))]
    if x.tag == "bytes":
        return [("lit", bytes(json.loads(x.a[0])).decode("utf8", "replace"))]
    if x.tag == "app" and x.a[0] is S("fmt::format"):
        return pieces(x.a[1])
    if x.tag == "app" and x.a[0].tag == "s" and x.a[0].a[0] in ("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const") and len(x.a) == 2:
        return pieces(x.a[1])
    if x.tag == "app" and x.a[0] is S("Arguments::new") and len(x.a) == 3:
        t, c = x.a[1], x.a[2]
        if c.tag != "coll" or any(s.tag != "one" for s in c.a[1]) or t.tag != "bytes":
            return None
        return template(json.loads(t.a[0]), [s.a[1] for s in c.a[1]])
    if x.tag == "app" and x.a[0].tag == "s" and x.a[0].a[0] in ("concat", "cat"):
        out = []
        for y in x.a[1:]:
            z = pieces(y)
            if z is None:
                return None
            out += z
        return out
    if x.tag == "app" and x.a[0] is S("join") and len(x.a) == 3 and x.a[1].tag == "coll" and all(s.tag == "one" for s in x.a[1].a[1]):
        out, sep = [], pieces(x.a[2])
        for n, s in enumerate(x.a[1].a[1]):
            z = pieces(s.a[1])
            if z is None or sep is None:
                return None
            out += (sep if n else []) + z
        return out
    if x.tag == "app" and x.a[0] is S("tostr") or x.tag == "app" and x.a[0] is S("dec"):
        return [("arg", x.a[1], True)]
    if x.tag == "app" and x.a[0] is S("jsonstr"):
        return [("arg", x, True)]
    if x.tag == "i":
        return [("arg", x, True)]
    return None


def template(bs, args):
    out, i, nxt = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
            continue
        if b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
            continue
        if b & 0xC0 != 0xC0:
            return None
        if b & 1:
            i += 4
        if b & 2:
            i += 2
        if b & 4:
            i += 2
        if b & 8:
            nxt = bs[i] | bs[i + 1] << 8
            i += 2
        if nxt >= len(args):
            return None
        a = args[nxt]
        nxt += 1
        if not (a.tag == "app" and a.a[0].tag == "s" and a.a[0].a[0].startswith("Argument::new_")):
            return None
        how = a.a[0].a[0].split("new_")[-1]
        v = a.a[1]
        sub = pieces(v) if b & 0x37 == 0 and how == "display" else None
        if sub is not None:
            out += sub
        else:
            out.append(("arg", v, b & 0x37 == 0 and how in ("display", "debug", "lower_exp")))
    return out


def cells_of(ps, sep=";"):
    """the separated fields of a line"""
    out = [[]]
    for q in ps:
        if q[0] == "lit":
            parts = q[1].split(sep)
            for j, t in enumerate(parts):
                if j:
                    out.append([])
                if t:
                    out[-1].append(("lit", t))
        else:
            out[-1].append(q)
    return out


# ---- the report writer ------------------------------------------------------------------------------------
FILE = "io:file"
META = {"crossoverProb": ("crossover_params", "crossover_prob"), "selectionPressure": ("crossover_params", "selection_pressure"),
        "mutationProb": ("mutation_params", "mutation_prob"), "mutationScale": ("mutation_params", "mutation_scale")}


class Writer(Base):
    def __init__(self, prog, info, objs):
        """objs: for every item that arrives, whether it carries an objective value"""
        Base.__init__(self, prog)
        self.info, self.objs = info, objs

    def run(self, fn):
        e = self.engine()
        p = self.p
        st = State()
        O, F = e.overrides, e.futs
        e.unroll_all = len(self.objs) + 3
        self.pd, self.pb = T_("y", "report-path", (), ()), T_("y", "best-path", (), ())
        for n in ("unk", "ended", "ioerr"):
            setg(st, n, FALSE)
        setg(st, "k", I(0))
        self.items = []
        for i, o in enumerate(self.objs):
            fs = []
            for n, t in p.adts[ITEM]["variants"][0]["fields"]:
                y = T_("y", ("item", i, n), (), ("u",) if t.tag == "int" else ())
                if n == "obj_func_val":
                    v = T_("y", ("item", i, "obj"), (), ("finite",))
                    e.add_fin(st, v)
                    fs.append(SOME(v) if o else NONE)
                elif t.tag == "int":
                    e.add_ge(st, lin_of(y))
                    fs.append(lin_of(y))
                else:
                    fs.append(y)
            self.items.append(T_("V", ITEM, 0, tuple(fs)))
        setg(st, "kept", T_("tup", tuple(self.items)))    # keeps what is known about the values
        args = []
        for i, t in enumerate(inputs(p, fn)):
            if chan_of(p, t, "mpsc::Receiver", ITEM):
                args.append(CH("items_rx"))
                continue
            x = t
            while x.tag == "ref":
                x = x.a[0]
            if x.tag == "adt" and x.a[0].endswith("option::Option"):
                args.append(SOME(self.files(x.a[1][0])) if self.info else NONE)
            else:
                args.append(self.opaque(x, ("in", i)))

        def rx(eng, st, v):
            v = eng.deref_all(st, v)
            return v.tag == "V" and v.a[0] == "chan:items_rx"

        def poll_next(eng, st, v, pp):
            if not rx(eng, st, v.a[2][0]):
                setg(st, "unk", TRUE)
                return [(st, eng.sym(pp + ("next",), ("unk", "next")))]
            k = cval(lin_of(G(st, "k")))
            self.settled(eng, st, k)
            if k == len(self.items):
                setg(st, "ended", TRUE)
                return [(st, NONE)]
            setg(st, "k", I(k + 1))
            return [(st, SOME(self.items[k]))]
        F["fut:next"] = poll_next

        def fmap(eng, st, a, info):
            return [(st, a[0])] if rx(eng, st, a[0]) else None
        O["StreamExt::map"] = fmap

        def forward(eng, st, a, info):
            return [(st, FUT("drain"))] if rx(eng, st, a[0]) else None
        O["StreamExt::forward"] = forward

        def drain(eng, st, v, pp):
            setg(st, "k", I(len(self.items)))
            setg(st, "ended", TRUE)
            return [(st, OK(UNIT))]
        F["fut:drain"] = drain
        O["StreamExt::for_each"] = lambda eng, st, a, info: [(st, FUT("each", a[0], a[1]))] if rx(eng, st, a[0]) and not self.items else None
        F["fut:each"] = lambda eng, st, v, pp: [(s, UNIT) for s, r in drain(eng, st, v, pp)]
        for k in ("sink::drain", "drain::drain"):
            O[k] = lambda eng, st, a, info: [(st, T_("V", "sink:drain", 0, ()))]

        # -- files
        def created(st, path):
            setg(st, ("file", path), COLL("vec", (), I(0)))
            setg(st, ("flushed", path), TRUE)
            return T_("V", FILE, 0, (path,))

        def ioerr(eng, st, pp):
            setg(st, "ioerr", TRUE)
            return ERR(eng.sym(pp + ("ioerr",), ("io",)))

        def both(f):
            """a fallible operation, now or when polled"""
            def h(eng, st, a, info):
                if info.dty.tag == "adt" and info.dty.a[0].endswith("result::Result"):
                    return f(eng, st, a, info.pp)
                return [(st, FUT("io", T_("const", f), *a))]
            return h
        F["fut:io"] = lambda eng, st, v, pp: v.a[2][0].a[0](eng, st, v.a[2][1:], pp)

        def create(eng, st, a, pp):
            path = eng.deref_all(st, a[0])
            s2 = st.copy()
            return [(st, OK(created(st, path))), (s2, ioerr(eng, s2, pp))]
        O["File::create"] = both(create)

        def append(st, path, x):
            old = G(st, ("file", path))
            if old is None:
                return False
            setg(st, ("file", path), COLL("vec", tuple(old.a[1]) + (ONE(NOKEY, x),), ladd(old.a[2], I(1))))
            setg(st, ("flushed", path), FALSE)
            return True

        def write_all(eng, st, a, pp):
            f = eng.deref_all(st, a[0])
            if not (f.tag == "V" and f.a[0] == FILE):
                setg(st, "unk", TRUE)
                return [(st, OK(UNIT))]
            s2 = st.copy()
            append(st, f.a[2][0], eng.deref_all(st, a[1]))
            return [(st, OK(UNIT)), (s2, ioerr(eng, s2, pp))]

        def flush(eng, st, a, pp):
            f = eng.deref_all(st, a[0])
            if not (f.tag == "V" and f.a[0] == FILE):
                setg(st, "unk", TRUE)
                return [(st, OK(UNIT))]
            s2 = st.copy()
            setg(st, ("flushed", f.a[2][0]), TRUE)
            return [(st, OK(UNIT)), (s2, ioerr(eng, s2, pp))]
        for k in ("AsyncWriteExt::", "Write::"):
            O[k + "write_all"] = both(write_all)
            O[k + "flush"] = both(flush)
            O[k + "shutdown"] = both(flush)
        for k in ("sync_all", "sync_data"):
            O["File::" + k] = both(flush)

        def whole(eng, st, a, pp):
            path = eng.deref_all(st, a[0])
            s2 = st.copy()
            created(st, path)
            append(st, path, eng.deref_all(st, a[1]))
            setg(st, ("flushed", path), TRUE)
            return [(st, OK(UNIT)), (s2, ioerr(eng, s2, pp))]
        O["fs::write"] = both(whole)
        O["write::write"] = both(whole)
        e.same_pending = lambda k0, k1: k0 == k1
        O["ToString::to_string"] = None
        del O["ToString::to_string"]
        try:
            for s, r in e.run_fn(st, fn, (), tuple(args), T_("fr", "root")):
                r = e.deref_all(s, r)
                for s2, v in poll_value(e, s, r, ("root",)):
                    if v is not None:
                        self.exit(e, s2, e.deref_all(s2, v))
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()

    def files(self, t):
        while t.tag == "ref":
            t = t.a[0]
        fs = fields_of(self.p, t)
        if fs is None:
            raise EngineLimit("the file names of the report writer")
        names = [n for n, x in fs]
        best = [n for n in names if "best" in n]
        if len(names) != 2 or len(best) != 1:
            raise EngineLimit("the file names of the report writer: %s" % names)
        return T_("V", t.a[0], 0, tuple(self.pb if n in best else self.pd for n in names))

    def content(self, st, path):
        c = G(st, ("file", path))
        return None if c is None else [s.a[1] for s in c.a[1]]

    def settled(self, e, st, k, last=False):
        """all k items have been handled: what the files must hold"""
        if not self.info:
            return
        self.report(e, st, k)
        self.best(e, st, k)

    def report(self, e, st, k):
        """a header and one line per item"""
        c = self.content(st, self.pd)
        self.req(e, st, "C14/report-file", c is not None, "the detailed report is created before evaluations are recorded")
        if c is None:
            return
        ps = []
        for x in c:
            q = pieces(x)
            if q is None:
                self.req(e, st, "C14/rows", False, "the detailed report is made of rows", (x, T_("y", "?", (), (("unk", "text"),))))
                return
            ps += q
        lines = cells_of(ps, "\n")
        n = k
        self.req(e, st, "C14/rows", len(lines) == n + 2 and not lines[-1], "the detailed report holds a header and exactly one row per record received", ("%d lines after %d records" % (len(lines) - 1, n),))
        if len(lines) != n + 2:
            return
        head = cells_of(lines[0])
        if any(len(h) != 1 or h[0][0] != "lit" for h in head):
            self.req(e, st, "C14/header", False, "the first line names the columns", (str(lines[0])[:200], T_("y", "?", (), (("unk", "text"),))))
            return
        names = [h[0][1] for h in head]
        for i in range(n):
            row = cells_of(lines[i + 1])
            self.req(e, st, "C14/columns", len(row) == len(names), "every row has the columns of the header", (len(row), len(names)))
            if len(row) != len(names):
                return
            for nm, cell in zip(names, row):
                self.cell(e, st, self.items[i], nm, cell)

    def best(self, e, st, k):
        f = lambda x, n: x.a[2][self.p.fidx(ITEM, 0, n)]
        vals = [(i, f(x, "obj_func_val").a[2][0]) for i, x in enumerate(self.items[:k]) if self.objs[i]]
        c = self.content(st, self.pb)
        if not vals:
            self.req(e, st, "C14/best-none", c is None, "without an accepted result there is no best-seen file")
            return
        self.req(e, st, "C14/best-written", c is not None and len(c) == 1, "the best-seen file holds one parameter set once a result was accepted", (c and len(c) or 0,))
        if not c or len(c) != 1:
            return
        q = pieces(c[0])
        if q is None:
            self.req(e, st, "C14/best-value", False, "the best-seen file holds the parameter set of an accepted result", (c[0], T_("y", "?", (), (("unk", "text"),))))
            return
        js = [a for a in q or () if a[0] == "arg"]
        lit = "".join(a[1] for a in q or () if a[0] == "lit").strip()
        who = [i for i, v in vals if len(js) == 1 and not lit and (js[0][1] is app("jsonstr", f(self.items[i], "input_val")))]
        self.req(e, st, "C14/best-value", len(who) == 1, "the best-seen file holds the parameter set of an accepted result", (c[0],))
        if len(who) != 1:
            return
        b = dict(vals)[who[0]]
        for i, v in vals:
            if i != who[0]:
                self.req(e, st, "C14/best-minimum", e.ev(st, T_("fle", b, v)) is True, "the best-seen file holds the parameter set of a minimum over the results recorded so far", (b, v))
        self.req(e, st, "C14/best-flushed", G(st, ("flushed", self.pb)) is TRUE, "the best-seen file is flushed when it has been written")

    def cell(self, e, st, it, nm, cell):
        f = lambda n: it.a[2][self.p.fidx(ITEM, 0, n)]
        one = cell[0] if len(cell) == 1 and cell[0][0] == "arg" else None

        def is_int(v):
            return one is not None and one[1].tag != "app" and e.ev(st, EQ0(lsub(lin_of(one[1]), lin_of(v)))) is True and one[2]
        if nm == "individualId":
            ok = is_int(f("individual_id"))
        elif nm == "seed":
            ok = is_int(f("seed"))
        elif nm == "inputVal":
            ok = one is not None and one[1] is app("jsonstr", f("input_val"))
        elif nm == "objFuncVal":
            o = f("obj_func_val")
            ok = (not cell) if o is NONE else one is not None and e.deref_all(st, one[1]) is o.a[2][0] and one[2]
        elif nm in META:
            o = f("meta_params_used")
            d = e.disc_of(st, o)
            w = fld(o, 1, 0)
            x = self.path(self.metaty(), w, META[nm])
            if d == 0 or d is None and not cell:
                ok = not cell
            else:
                ok = x is not None and one is not None and e.deref_all(st, one[1]) is x and one[2]
        else:
            return
        self.req(e, st, "C14/row/" + nm, ok, "every row of the detailed report carries its record's %s" % nm, tuple(x[1] for x in cell))

    def metaty(self):
        for n, t in self.p.adts[ITEM]["variants"][0]["fields"]:
            if n == "meta_params_used":
                return t.a[1][0]

    def path(self, t, x, names):
        for n in names:
            fs = fields_of(self.p, t)
            i = [j for j, (m, ft) in enumerate(fs or ()) if m == n]
            if not i:
                return None
            x, t = fld(x, 0, i[0]), fs[i[0]][1]
        return x

    def exit(self, e, st, r):
        self.exits.append(r)
        for s, ok, x in M.res_cases(e, st, r):
            if G(s, "ioerr") is TRUE:
                self.req(e, s, "C14/io-error", not ok, "a failure to write is an error", (x,))
                continue
            self.req(e, s, "C14/no-error", ok, "without a failure to write there is no error", (x,))
            self.req(e, s, "C14/drained", G(s, "ended") is TRUE, "the writer only ends when the channel has ended")
            self.req(e, s, "C15/drained", G(s, "ended") is TRUE, "the writer only ends when the channel has ended")
            if self.info and ok:
                for pth, nm in ((self.pd, "detailed report"), (self.pb, "best-seen file")):
                    if G(s, ("file", pth)) is not None:
                        self.req(e, s, "C14/flushed", G(s, ("flushed", pth)) is TRUE, "the %s is flushed at the end" % nm)
                self.settled(e, s, len(self.items))


# ---- the adapter for in-process objective functions --------------------------------------------------------
def adapters(p):
    """implementations of the asynchronous objective function trait that start no process"""
    sites = {b for b, n, sp in proc.spawn_sites(p)}
    out = []
    for im in p.impls:
        if (im.get("trait") or "").split("::")[-1] != proc.TRAIT:
            continue
        f = im["items"].get("evaluate")
        if f is None or f not in p.bodies or not f.startswith("cambrian::"):
            continue
        if not (p.reach([f]) | {f}) & sites:
            out.append((f, im["self"]))
    return out


class Adapter(Base):
    def run(self, fn, selfty):
        e = self.engine()
        p = self.p
        st = State()
        O, F = e.overrides, e.futs
        for n in ("unk", "abort", "done", "inside", "pj", "pa"):
            setg(st, n, FALSE)
        setg(st, "spawned", I(0))
        setg(st, "evals", I(0))
        value = T_("y", "value", (), ())
        result = T_("y", "objective-result", (), ())
        args = []
        for i, t in enumerate(inputs(p, fn)):
            t = E._peel(t)
            if t.tag == "adt" and t.a[0] == selfty.a[0]:
                args.append(V(t.a[0], 0, *[T_("y", ("self", n), (), ()) for n, ft in p.adts[t.a[0]]["variants"][0]["fields"]]))
            elif t.tag == "adt" and t.a[0].endswith("Receiver"):
                args.append(CH("abort"))
            elif t.tag == "adt" and t.a[0].startswith("serde_json"):
                args.append(value)
            else:
                args.append(self.opaque(t, ("in", i)))

        def objective(eng, st, a, info):
            n = cval(lin_of(G(st, "evals")))
            self.req(eng, st, "C08/in-process-once", n == 0, "one evaluation calls the objective function once")
            self.req(eng, st, "C01/in-process-value", eng.deref_all(st, a[1]) is value, "the objective function is called with the evaluation's parameter set", (a[1],))
            self.req(eng, st, "C05/in-process-spawned", G(st, "inside") is TRUE, "the objective function runs in a task of its own, so that it does not hold up the others")
            setg(st, "evals", I(min(n + 1, 2)))
            return [(st, result)]
        O["ObjectiveFunction::evaluate"] = objective

        def spawn(eng, st, a, info):
            setg(st, "spawned", I(min(cval(lin_of(G(st, "spawned"))) + 1, 2)))
            return [(st, FUT("join", a[-1]))]
        for k in ("task::spawn", "spawn::spawn", "blocking::spawn_blocking", "task::spawn_blocking", "Handle::spawn", "Handle::spawn_blocking", "tokio::spawn"):
            O[k] = spawn

        def poll_join(eng, st, v, pp):
            if G(st, "done") is TRUE:
                setg(st, "unk", TRUE)
                return [(st, None)]
            setg(st, "pj", TRUE)
            out = [(st.copy(), None)]
            setg(st, "inside", TRUE)
            x = eng.deref_all(st, v.a[2][0])
            if x.tag == "cl":
                rs = eng.call_closure(st, x, (), pp + ("sb",))
            else:
                rs = poll_value(eng, st, x, pp + ("sp",))
            for s, r in rs:
                if r is None:
                    continue
                setg(s, "inside", FALSE)
                setg(s, "done", TRUE)
                out.append((s, OK(r)))
            return out
        F["fut:join"] = poll_join

        def recv(eng, st, a, info):
            c = eng.deref_all(st, a[0])
            return [(st, FUT("abortrecv"))] if c is CH("abort") else None
        for k in ("Receiver::recv", "Receiver::recv_direct", "async_broadcast::recv"):
            O[k] = recv
        F["fut:next"] = lambda eng, st, v, pp: poll_abort(eng, st, v, pp)

        def poll_abort(eng, st, v, pp):
            setg(st, "pa", TRUE)
            s2 = st.copy()
            setg(s2, "abort", TRUE)
            return [(st, None), (s2, eng.sym(pp + ("abort",), ("unk", "abort")))]
        F["fut:abortrecv"] = poll_abort

        def start_hook(st):
            for n in ("pj", "pa"):
                setg(st, n, FALSE)

        def pend_hook(st):
            if G(st, "inside") is TRUE:
                return
            self.req(e, st, "C04/in-process-listens", G(st, "pa") is TRUE, "while the objective function runs the evaluation listens to the abort signal")
            self.req(e, st, "C15/in-process-driven", G(st, "pj") is TRUE, "while waiting, the evaluation watches the objective function's task")
        e.poll_start_hook = start_hook
        e.poll_pending_hook = pend_hook
        e.same_pending = lambda k0, k1: k0 == k1
        try:
            for s, r in e.run_fn(st, fn, (), tuple(args), T_("fr", "root")):
                for s2, v in poll_value(e, s, e.deref_all(s, r), ("root",)):
                    if v is None:
                        continue
                    self.exits.append(v)
                    v = e.deref_all(s2, v)
                    for s3, ok, x in M.res_cases(e, s2, v):
                        x = e.deref_all(s3, x)
                        if G(s3, "done") is TRUE:
                            for c in ("C02", "C14"):
                                self.req(e, s3, c + "/in-process-result", ok and self.same(e, s3, x, result), "the evaluation's result is what the objective function returned", (x,))
                        elif G(s3, "abort") is TRUE:
                            self.req(e, s3, "C04/in-process-abort", ok and e.disc_of(s3, x) == 0, "an aborted evaluation is a rejection", (x,))
                        else:
                            self.req(e, s3, "C02/in-process-result", False, "the evaluation's result is what the objective function returned", (x,))
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()


# ---- the termination criteria ---------------------------------------------------------------------------------
CRIT = {"opt:int": "NumObjFuncEval", "opt:float": "TargetObjFuncVal", "opt:Duration": "TerminateAfter", "bool": "Signal"}
ERRV = "cambrian::error::Error"


class Compile(Base):
    """kinds: for every criterion (variant name, finite?)"""
    def __init__(self, prog, kinds):
        Base.__init__(self, prog)
        self.kinds = kinds

    def run(self, fn):
        e = self.engine()
        p = self.p
        st = State()
        setg(st, "unk", FALSE)
        e.unroll_all = len(self.kinds) + 3
        ct = crit_type(p)
        vs = p.adts[ct]["variants"]
        items, want = [], {}
        bad = dup = False
        for i, (name, fin) in enumerate(self.kinds):
            vi = [j for j, v in enumerate(vs) if v["name"] == name][0]
            fs = []
            for n, t in vs[vi]["fields"]:
                y = T_("y", ("crit", i), (), ("u",) if t.tag == "int" else ("finite",) if fin else ())
                if t.tag == "int":
                    e.add_ge(st, lin_of(y))
                    y = lin_of(y)
                elif t.tag == "float":
                    if fin:
                        e.add_fin(st, y)
                    else:
                        bad = True
                        y = FC(fin is None and INF or float("nan"))
                fs.append(y)
            items.append(ONE(NOKEY, T_("V", ct, vi, tuple(fs))))
            dup = dup or name in want
            want[name] = fs[0] if fs else TRUE
        arg = COLL("vec", tuple(items), I(len(items)))
        try:
            for s, r in e.run_fn(st, fn, (), (arg,), T_("fr", "root")):
                r = e.deref_all(s, r)
                self.exits.append(r)
                for s2, ok, x in M.res_cases(e, s, r):
                    x = e.deref_all(s2, x)
                    if bad:
                        self.req(e, s2, "C16/target-finite", not ok, "a target that is not finite is refused", (x,))
                        self.req(e, s2, "C04/target-finite", not ok, "a target that is not finite is refused", (x,))
                        continue
                    if dup:
                        self.req(e, s2, "C16/conflict", not ok, "criteria given twice are refused", (x,))
                        continue
                    self.req(e, s2, "C16/accepted", ok, "criteria each given at most once are accepted", (x,))
                    if not ok:
                        continue
                    for i, (n, ft) in enumerate(fields_of(p, p.bodies[fn].ltys[0].a[1][0])):
                        k = Task.kind(self, ft)
                        k = "opt:" + k.split("::")[-1] if k.startswith("opt:") else k
                        name = CRIT.get(k.replace("opt:opt:", "opt:"))
                        if name is None:
                            continue
                        got = e.deref_all(s2, fld(x, 0, i))
                        if name == "Signal":
                            good = got is B(name in want)
                        elif name in want:
                            good = e.disc_of(s2, got) == 1 and self.same(e, s2, fld(got, 1, 0), want[name])
                        else:
                            good = e.disc_of(s2, got) == 0
                        for c in {"NumObjFuncEval": ("C03",), "TargetObjFuncVal": ("C04",), "TerminateAfter": ("C04",), "Signal": ("C04",)}[name]:
                            self.req(e, s2, "%s/criterion/%s" % (c, name), good, "the %s criterion is taken over as given, and only when given" % name, (got,))
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()


def crit_type(p):
    for a, d in p.adts.items():
        if a.startswith("cambrian::") and set(CRIT.values()) <= {v["name"] for v in d["variants"]}:
            return a
    raise EngineLimit("the termination criteria")


def crit_seqs(n=3):
    ks = [("NumObjFuncEval", True), ("TargetObjFuncVal", True), ("TerminateAfter", True), ("Signal", True)]
    out, cur = [()], [()]
    for _ in range(n):
        cur = [c + (k,) for c in cur for k in ks]
        out += cur
    for b in (None, False):
        t = ("TargetObjFuncVal", b)
        out += [(t,)] + [(k, t) for k in ks] + [(t, k) for k in ks]
    return out
