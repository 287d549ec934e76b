"""Abstract interpretation of the controller: the coroutine that owns the set of in-flight evaluations."""
import re
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
from models import D, ppx
import asyncm
from asyncm import G, setg, gcell, FUT, CH, PENDING, poll_value, run_cor, base_engine
import nodes, roots
import prog as P

ONESHOT = "oneshot::Receiver"
ALGO = "cambrian::algorithm::AlgoContext"
IND = "cambrian::algorithm::IndContext"
ITEM = "cambrian::detailed_report::DetailedReportItem"
REPORT = "cambrian::result::FinalReport"
CFG = "cambrian::meta::AlgoConfig"
ZERO = I(0)


def app(n, *a):
    return T_("app", S(n), *a)


def controllers(p):
    """coroutine bodies that create the set of in-flight evaluations"""
    out = []
    for b, body in p.bodies.items():
        if not b.startswith("cambrian::"):
            continue
        for bl in body.blocks:
            t = bl.tm
            if t["t"] == "call" and "FuturesUnordered" in str(t["f"].get("fn", "")) + str(p.defs.get(t["f"].get("fn"), {}).get("name", "")):
                if p.short(t["f"]["fn"]).split("::")[-1] in ("new", "push", "default", "from_iter"):
                    out.append(b)
                    break
    return out


def entry_of(p):
    """the async function whose coroutine owns the evaluations: parameters contain the objective function"""
    c = set()
    for b in controllers(p):
        r = b
        while True:
            m = re.match(r"(.*)::\{closure#\d+\}$", r)
            if not m:
                break
            r = m.group(1)
        c.add(r)
    # climb from helper functions to the async function that takes the abort signal receiver
    seen = set()
    work = list(c)
    good = set()
    while work:
        r = work.pop()
        if r in seen or r not in p.bodies:
            continue
        seen.add(r)
        if any(has_adt(p, t, ONESHOT, own=True) for t in p.bodies[r].ltys[1:1 + p.bodies[r].argc]):
            good.add(r)
            continue
        for b in p.bodies:
            if b.startswith("cambrian::") and r in p.refs(b):
                q = b
                while True:
                    m = re.match(r"(.*)::\{closure#\d+\}$", q)
                    if not m:
                        break
                    q = m.group(1)
                if q != r:
                    work.append(q)
    return sorted(good)


def has_adt(p, t, suffix, own=False, depth=0):
    if depth > 4:
        return False
    if t.tag in ("ref", "ptr") and not own:
        return has_adt(p, t.a[0], suffix, own, depth + 1)
    if t.tag != "adt":
        return False
    if t.a[0].endswith(suffix):
        return True
    if t.a[0].startswith("cambrian::") and t.a[0] in p.adts:
        for v in p.adts[t.a[0]]["variants"]:
            for n, ft in v["fields"]:
                if has_adt(p, p._subst(ft, t.a[1]), suffix, own, depth + 1):
                    return True
    return False


class Ctrl:
    """one analysis run: parameters, ghost state, obligations"""

    def __init__(self, prog, maxeval, target, guess, prune=None):
        self.p = prog
        self.prune = prune
        self.conf = (maxeval, target, guess)
        self.exits = []
        self.limit = None
        self.shapes = {}
        self.pushes = 0
        self.pops = 0

    # ---- obligations ------------------------------------------------------------------------------
    def emit(self, e, key, ok, text, terms=(), st=None, und=False):
        if ok:
            e.event("ob", None, (key, "ok", text))
        else:
            where = e.stack[-1] if e.stack else "?"
            e.event("ob", None, (key, UNDEC if und else BADV, text, where, e.sps[-1] if e.sps else "", tuple(show(x)[:300] if isinstance(x, T) else str(x) for x in terms), tuple(self.describe(st)[:40]) if st is not None else ()))
        return ok

    def require(self, e, st, key, pred, text, data=()):
        if pred is True:
            return self.emit(e, key, True, text)
        if pred not in (False, None):
            r = e.ev(st, pred)
            if r is True:
                return self.emit(e, key, True, text)
            if r is None:
                good, bad = e.split(st.copy(), pred)
                if not any(e.feasible(b) for b in bad):
                    return self.emit(e, key, True, text)
        if not e.feasible(st):
            return True
        terms = [pred] if isinstance(pred, T) else []
        terms += [d for d in data if isinstance(d, T)]
        und = any(nodes.tainted(x) for x in terms) or st.cells.get(gcell("unk")) is TRUE
        self.emit(e, key, False, text, terms, st, und)
        if not und and (key[:3] == self.prune or self.prune == "all"):
            # reported: go on with the executions in which it holds
            good = [g for g in e.split(st.copy(), pred)[0] if e.feasible(g)] if pred not in (False, None) else []
            if len(good) == 1:
                st.__dict__.update(good[0].__dict__) if hasattr(st, "__dict__") else [setattr(st, k, getattr(good[0], k)) for k in State.__slots__]
            elif not good:
                setg(st, "dead", TRUE)
        return False

    def obligations(self):
        """key -> [text, discharged, {(status, text): detail}]"""
        out = {}
        for ev in self.e.all_events("ob"):
            d = ev.data
            o = out.setdefault(d[0], [d[2], 0, {}])
            if d[1] == "ok":
                o[1] += 1
            else:
                o[2].setdefault((d[1], d[2]), d[3:])
        return out

    def describe(self, st):
        out = ["%s=%s" % (c.a[0], show(v)[:80]) for c, v in st.cells.items() if c.tag == "g" and len(c.a) == 1 and isinstance(c.a[0], str)]
        out += [str(f)[:160] for f in st.facts()][:24]
        return out

    # ---- symbolic inputs --------------------------------------------------------------------------
    def param(self, e, st, ty, path):
        p = self.p
        while ty.tag == "ref":
            ty = ty.a[0]
        if ty.tag == "adt":
            a = ty.a[0]
            if a.endswith(ONESHOT):
                return CH("oneshot")
            if a.endswith("mpsc::Sender"):
                return CH("items")
            if a == "cambrian::spec::Spec":
                return T_("y", "spec", (), ("spec",))
            if a == CFG:
                fs = []
                for n, ft in p.adts[a]["variants"][0]["fields"]:
                    y = T_("y", ("cfg", n), (), ("u",))
                    if ft.tag == "int":
                        e.add_ge(st, ladd(lin_of(y), I(-1)))
                        e.add_ge(st, lsub(I(1 << 62), lin_of(y)))
                        fs.append(lin_of(y))
                    else:
                        fs.append(y)
                    if n == "num_concurrent":
                        self.nc = lin_of(y)
                    elif n == "individual_sample_size":
                        self.ss = lin_of(y)
                return T_("V", a, 0, tuple(fs))
            if a.endswith("option::Option"):
                x = ty.a[1][0]
                if x.tag == "int":
                    self.N = lin_of(T_("y", "max_num_eval", (), ("u",)))
                    e.add_ge(st, self.N)
                    e.add_ge(st, lsub(I(1 << 62), self.N))
                    return SOME(self.N) if self.conf[0] else NONE
                if x.tag == "float":
                    self.target = T_("y", "target", (), ("finite",))
                    e.add_fin(st, self.target)
                    return SOME(self.target) if self.conf[1] else NONE
                if x.tag == "adt" and x.a[0].startswith("serde_json"):
                    self.guess = T_("y", "guess", (), ())
                    return SOME(self.guess) if self.conf[2] else NONE
            if a.startswith("cambrian::") and a in p.adts and len(p.adts[a]["variants"]) == 1:
                fs = [self.param(e, st, p._subst(ft, ty.a[1]), path + (i,)) for i, (n, ft) in enumerate(p.adts[a]["variants"][0]["fields"])]
                return T_("V", a, 0, tuple(fs))
        if ty.tag == "param":
            return T_("y", ("param",) + path, (), ())
        return T_("y", ("arg",) + path, (), ())

    # ---- running ----------------------------------------------------------------------------------
    def run(self, entry):
        e = base_engine(self.p, nodes.NodeDomain(self.p))
        self.e = e
        e.ctl = self
        e.volatile = {ALGO}
        e.limit_steps = 400000
        install(e, self)
        body = self.p.bodies[entry]
        st = State()
        self.N = self.target = self.guess = None
        args = [self.param(e, st, body.ltys[i + 1], (i,)) for i in range(body.argc)]
        for n in ("pushed", "n", "acc", "rej", "skip", "nseed"):
            setg(st, n, ZERO)
        for n in ("term", "cancel", "fail", "tgt", "bc", "ap", "hung", "unk", "start"):
            setg(st, n, FALSE)
        setg(st, "cur", UNIT)
        setg(st, "rec", FALSE)
        setg(st, "prc", FALSE)
        setg(st, "ind", UNIT)
        setg(st, "ferr", UNIT)
        try:
            res = e.run_fn(st, entry, (), tuple(args), T_("fr", "root"))
            for s, r in res:
                r = e.deref_all(s, r)
                for s2, v in poll_value(e, s, r, ("root",)):
                    if v is not None:
                        self.exit(e, s2, v)
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        self.panics = e.all_events("panic")
        return self

    # ---- ghost transitions ------------------------------------------------------------------------
    def done(self, st):
        return ladd(G(st, "acc"), G(st, "rej"))

    def best(self, st):
        return app("best", G(st, "acc"))

    def stopping(self, st):
        return any(G(st, k) is not FALSE for k in ("term", "fail", "tgt", "cancel", "hung"))

    def push(self, e, st, fut, pp):
        """an evaluation is handed to the set of in-flight evaluations"""
        out = []
        fut = e.deref_all(st, fut)
        self.pushes += 1
        # what this evaluation passes to the objective function: run it once on the side
        base = st.copy()
        setg(base, "probe", TRUE)
        setg(base, "ab", FALSE)
        self.probe = []
        ev = e.events
        e.events = [{}]
        for s, r in poll_value(e, base, fut, pp + ("probe",)):
            pass
        calls = self.probe
        b2 = st.copy()
        setg(b2, "probe", TRUE)
        setg(b2, "bc", TRUE)
        setg(b2, "ab", TRUE)
        self.probe = []
        for s, r in poll_value(e, b2, fut, pp + ("probe2",)):
            pass
        late = self.probe
        e.events = ev
        self.probe = None
        if G(st, "bc") is TRUE and not late:
            # the abort is already signalled and the evaluation checks for it before it starts: not a start
            setg(st, "unk", TRUE)
        for k, what in (("term", "C04 a termination request was seen"), ("fail", "C06 an evaluation failed"), ("tgt", "C04 the target was reached")):
            self.require(e, st, what[:3] + "/no-start-after-" + k, G(st, k) is not TRUE or G(st, "unk") is TRUE, "no evaluation is started once %s" % what[4:])
        if self.conf[0]:
            self.require(e, st, "C03/budget", GE0(ladd(lsub(self.N, G(st, "pushed")), I(-1))), "the number of evaluations started stays within the maximum", (G(st, "pushed"), self.N))
        self.require(e, st, "C05/bound", GE0(ladd(lsub(self.nc, G(st, "n")), I(-1))), "no more than num_concurrent evaluations are in flight", (G(st, "n"),))
        self.require(e, st, "C04/no-late-start", not late, "an evaluation that is still queued when the abort is signalled does not start the objective function")
        self.require(e, st, "C06/no-late-start", not late, "an evaluation that is still queued when the abort is signalled does not start the objective function")
        sd = set()
        for (s, value, seed, iid, ch) in calls:
            ind = G(st, "ind")
            seed = lin_of(seed)
            if ind is UNIT:
                self.require(e, st, "C08/individual", False, "every evaluation started is one of a freshly obtained individual", (value,))
            else:
                same = value is app("json", fld(ind, 0, self.fi("value")))
                self.require(e, st, "C08/individual", same, "the objective function receives the JSON of the individual's own value", (value, ind))
                self.require(e, st, "C08/id", EQ0(lsub(lin_of(iid), lin_of(fld(ind, 0, self.fi("id"))))), "the objective function receives the individual's own id", (lin_of(iid),))
            self.require(e, st, "C08/seed", GE0(lsub(seed, G(st, "nseed"))), "the seed is larger than every seed used before", (seed, G(st, "nseed")))
            self.require(e, st, "C04/abort-receiver", ch is True, "the evaluation is given a receiver of the abort signal")
            sd.add(seed)
        self.require(e, st, "C08/evaluates", bool(calls), "the evaluation started calls the objective function")
        if len(sd) == 1:
            setg(st, "nseed", ladd(sd.pop(), I(1)))
        setg(st, "ind", UNIT)
        setg(st, "pushed", ladd(G(st, "pushed"), I(1)))
        setg(st, "n", ladd(G(st, "n"), I(1)))
        self.shapes[self.shape(fut)] = True
        return st

    def fi(self, name):
        return self.p.fidx(IND, 0, name)

    def shape(self, v):
        """the pushed future with its varying parts removed"""
        if v.tag in ("V", "cor", "clo", "tup"):
            if v.tag == "V" and v.a[0] in self.e.p.adts and len(self.e.p.adts[v.a[0]]["variants"]) > 1:
                return T_("hole", "v")
            fs = v.a[2] if v.tag != "tup" else v.a[0]
            fs = tuple(self.shape(x) for x in fs)
            if v.tag == "tup":
                return T_("tup", fs)
            return T_(v.tag, v.a[0], v.a[1], fs)
        if v.tag in ("ref", "vol", "fn"):
            return v
        if v.tag == "i":
            return T_("hole", "i")
        if v.tag == "y" and isinstance(v.a[0], tuple) and v.a[0] and v.a[0][0] in ("param", "arg", "cfg"):
            return v
        return T_("hole", "y")

    def fill(self, e, v, pp):
        if v.tag == "hole":
            y = e.sym(pp + ("pop",), *(("u",) if v.a[0] == "i" else ()))
            return lin_of(y) if v.a[0] == "i" else y
        if v.tag in ("V", "cor", "clo"):
            return T_(v.tag, v.a[0], v.a[1], tuple(self.fill(e, x, pp + (i,)) for i, x in enumerate(v.a[2])))
        if v.tag == "tup":
            return T_("tup", tuple(self.fill(e, x, pp + (i,)) for i, x in enumerate(v.a[0])))
        return v

    def poll_bag(self, e, st, pp):
        """[(state, None: pending | ('end',) | ('item', result value))]"""
        out = []
        if st.cells.get(gcell("dead")) is TRUE:
            return out
        self.quiet(e, st, "before the next result is awaited")
        stop = self.stopping(st)
        if G(st, "term") is TRUE or G(st, "fail") is TRUE:
            self.require(e, st, "C04/signalled" if G(st, "term") is TRUE else "C06/signalled", G(st, "bc") is TRUE, "once stopping, the in-flight evaluations are told to abort before their results are awaited")
        else:
            self.require(e, st, "C04/poll-order", G(st, "ap") is TRUE or G(st, "cancel") is TRUE, "evaluations are only driven forward after the abort signal has been looked at in the same poll")
        if G(st, "fail") is FALSE and G(st, "term") is FALSE:
            self.require(e, st, "C04/target-stops", G(st, "tgt") is not TRUE, "once the target is reached no further result is awaited")
        if not stop:
            sts = [(st, False)]
            if self.conf[0]:
                a, b = e.split(st, GE0(lsub(G(st, "pushed"), self.N)))
                sts = [(s, True) for s in a] + [(s, False) for s in b]
            nst = []
            for s, exh in sts:
                if not e.feasible(s):
                    continue
                n = G(s, "n")
                setg(s, "exh", B(exh))
                if exh:
                    self.require(e, s, "C05/work-conserving", EQ0(ladd(n, lsub(self.done(s), self.N))), "out of new starts, all the remaining budget is in flight", (n,))
                else:
                    self.require(e, s, "C05/work-conserving", EQ0(lsub(n, self.nc)), "while running, exactly num_concurrent evaluations are in flight", (n,))
                if self.conf[0]:
                    self.require(e, s, "C03/conserved", EQ0(lsub(G(s, "pushed"), ladd(ladd(n, self.done(s)), G(s, "skip")))), "every started evaluation is in flight or processed", (n,))
                nst.append(s)
        else:
            setg(st, "exh", FALSE)
            nst = [st]
        for s0 in nst:
            if s0.cells.get(gcell("dead")) is TRUE:
                continue
            n = G(s0, "n")
            setg(s0, "ap", FALSE)
            emp, non = e.split(s0, EQ0(n))
            for s in emp:
                out.append((s, ("end",)))
            for s in non:
                if not e.add_ge(s, ladd(n, I(-1))):
                    continue
                # pending: nothing else changes
                out.append((s.copy(), None))
                for k, sh in enumerate(sorted(self.shapes, key=lambda x: x.id)):
                    s2 = s.copy()
                    setg(s2, "n", ladd(n, I(-1)))
                    setg(s2, "cur", UNIT)
                    setg(s2, "rec", FALSE)
                    setg(s2, "prc", FALSE)
                    f = self.fill(e, sh, pp + ("pop", k))
                    self.pops += 1
                    for s3, r in poll_value(e, s2, f, pp + ("pop", k)):
                        if r is not None:
                            out.append((s3, ("item", r)))
        return out

    def popped(self, e, st, r):
        """classify the result of an evaluation: [(state, is ok, payload)]"""
        out = []
        cur = G(st, "cur")
        for s, ok, x in M.res_cases(e, st, r):
            if cur is UNIT or not ok:
                setg(s, "skip", ladd(G(s, "skip"), I(1)))
            if cur is UNIT:
                self.require(e, s, "C06/skip", ok, "an evaluation that was never started is not reported as a failure")
            else:
                kind, val = cur.a[0][3].a[0][0].a[0], cur.a[0][3].a[0][1]
                if kind == "err":
                    self.require(e, s, "C06/propagate", not ok, "an objective function failure is a failure of the evaluation")
                    if not ok:
                        self.require(e, s, "C06/same-error", x is val or self.same_err(e, s, x, val), "the objective function's own error is the evaluation's error", (x, val))
                elif kind == "none":
                    self.require(e, s, "C06/reject", ok, "a rejection is not a failure")
                else:
                    f = e.ev(s, T_("fin", val))
                    if ok:
                        self.require(e, s, "C06/finite", T_("fin", val), "a non-finite objective value is a failure", (val,))
                    else:
                        self.require(e, s, "C06/finite-accepted", NOT(T_("fin", val)), "a finite objective value is not a failure", (val,))
                if not ok:
                    setg(s, "cur", UNIT)
                    if G(s, "fail") is FALSE and G(s, "term") is FALSE and G(s, "cancel") is FALSE:
                        setg(s, "fail", TRUE)
                        setg(s, "ferr", x)
                    elif G(s, "fail") is FALSE:
                        setg(s, "lateerr", TRUE)
            out.append((s, ok, x))
        return out

    def same_err(self, e, st, x, val):
        return bool(syms(val)) and syms(val) <= syms(x)

    def quiet(self, e, st, when):
        """a completed evaluation has been recorded and processed exactly once"""
        if G(st, "cur") is not UNIT:
            self.require(e, st, "C14/recorded", G(st, "rec") is TRUE or G(st, "hung") is TRUE, "every completed evaluation is sent to the detailed report", (G(st, "cur"),))
            self.require(e, st, "C14/processed", G(st, "prc") is TRUE or G(st, "hung") is TRUE, "every completed evaluation is handed to the algorithm", (G(st, "cur"),))
            self.require(e, st, "C03/processed", G(st, "prc") is TRUE or G(st, "hung") is TRUE, "every completed evaluation is handed to the algorithm", (G(st, "cur"),))
            self.require(e, st, "C04/processed", G(st, "prc") is TRUE or G(st, "hung") is TRUE, "every completed evaluation, also one that ends while draining, is handed to the algorithm", (G(st, "cur"),))
            self.require(e, st, "C02/processed", G(st, "prc") is TRUE or G(st, "hung") is TRUE, "every completed evaluation is handed to the algorithm", (G(st, "cur"),))
            setg(st, "cur", UNIT)

    def record(self, e, st, item):
        item = e.deref_all(st, item)
        cur = G(st, "cur")
        if item.tag == "V" and item.a[0] == ITEM:
            f = lambda n: e.deref_all(st, item.a[2][self.p.fidx(ITEM, 0, n)])
        else:
            f = lambda n: fld(item, 0, self.p.fidx(ITEM, 0, n))
        if cur is UNIT:
            self.require(e, st, "C14/record-of-evaluation", False, "only completed evaluations are recorded", (item,))
            return
        self.require(e, st, "C14/once", G(st, "rec") is not TRUE, "an evaluation is recorded once")
        value, seed, iid, res = cur.a[0]
        kind, val = res.a[0][0].a[0], res.a[0][1]
        self.require(e, st, "C14/record-id", EQ0(lsub(lin_of(f("individual_id")), lin_of(iid))), "the record carries the id of the evaluated individual", (f("individual_id"), iid))
        self.require(e, st, "C14/record-seed", EQ0(lsub(lin_of(f("seed")), lin_of(seed))), "the record carries the seed of the evaluation", (f("seed"), seed))
        self.require(e, st, "C14/record-value", f("input_val") is value, "the record carries the parameter set given to the objective function", (f("input_val"), value))
        o = f("obj_func_val")
        d = e.disc_of(st, o)
        if kind == "none":
            self.require(e, st, "C14/record-result", d == 0, "a rejection is recorded without a value", (o,))
        else:
            self.require(e, st, "C14/record-result", d == 1 and e.deref_all(st, fld(o, 1, 0)) is val, "the record carries the value the objective function returned", (o, val))
        mp = f("meta_params_used")
        self.mp = mp
        setg(st, "rec", TRUE)
        self.settle(st)

    def settle(self, st):
        if G(st, "rec") is TRUE and G(st, "prc") is TRUE:
            for k in ("cur", "rec", "prc"):
                setg(st, k, UNIT if k == "cur" else FALSE)

    def process(self, e, st, ind, val):
        cur = G(st, "cur")
        ind = e.deref_all(st, ind)
        if cur is UNIT:
            self.require(e, st, "C14/process-of-evaluation", False, "only completed evaluations are handed to the algorithm", (ind,))
            return [st]
        for c in ("C14", "C03", "C02"):
            self.require(e, st, c + "/process-once", G(st, "prc") is not TRUE, "an evaluation is processed once")
        value, seed, iid, res = cur.a[0]
        kind, x = res.a[0][0].a[0], res.a[0][1]
        if ind.tag == "V" and ind.a[0] == IND:
            iv, ii = e.deref_all(st, ind.a[2][self.fi("value")]), ind.a[2][self.fi("id")]
        else:
            iv, ii = fld(ind, 0, self.fi("value")), fld(ind, 0, self.fi("id"))
        self.require(e, st, "C02/process-value", app("json", iv) is value, "the result is attributed to the individual that was evaluated", (iv, value))
        self.require(e, st, "C08/process-id", EQ0(lsub(lin_of(ii), lin_of(iid))), "the result is attributed to the individual that was evaluated", (lin_of(ii),))
        d = e.disc_of(st, val)
        if kind == "none":
            self.require(e, st, "C02/process-result", d == 0, "a rejection is processed as a rejection", (val,))
        else:
            self.require(e, st, "C02/process-result", d == 1 and e.deref_all(st, fld(e.deref_all(st, val), 1, 0)) is x, "the value processed is the one the objective function returned", (val, x))
        setg(st, "prc", TRUE)
        k = "rej" if kind == "none" else "acc"
        setg(st, k, ladd(G(st, k), I(1)))
        self.settle(st)
        # does this result bring the best-seen objective to the target?
        out = []
        if not self.conf[1]:
            return [st]
        b = self.best(st)
        for s, d in e.split_disc(st, b, OPT):
            if d == 0:
                out.append(s)
                continue
            x = fld(fld(b, 1, 0), 0, 0)
            s.fi[x] = (-FMAX, FMAX, False)
            s._k = None
            yes, no = e.split(s, T_("fle", x, self.target))
            for s2 in yes:
                if G(s2, "fail") is FALSE:
                    setg(s2, "tgt", TRUE)
                out.append(s2)
            out += no
        return out

    def exit(self, e, st, r):
        r = e.deref_all(st, r)
        for s, ok, x in M.res_cases(e, st, r):
            if not e.feasible(s) or s.cells.get(gcell("dead")) is TRUE:
                continue
            self.exits.append((s, ok, x))
            self.quiet(e, s, "at the end")
            if G(s, "pushed") is ZERO and not ok and G(s, "guessbad") is TRUE:
                self.require(e, s, "C11/guess-error", x is G(s, "guesserr") or self.same_err(e, s, x, G(s, "guesserr")), "an invalid initial guess ends the run with its own error", (x,))
                continue
            self.require(e, s, "C11/guess-rejected", G(s, "guessbad") is not TRUE, "an invalid initial guess is rejected before anything is started")
            if G(s, "hung") is TRUE:
                continue
            n = G(s, "n")
            if G(s, "fail") is TRUE:
                self.require(e, s, "C06/fails", not ok, "a run with a failed evaluation ends with an error")
                if not ok:
                    fe = G(s, "ferr")
                    self.require(e, s, "C06/first-error", x is fe or self.same_err(e, s, x, fe), "the error returned is the first failure", (x, fe))
                self.require(e, s, "C06/waits", EQ0(n), "the run returns after the in-flight evaluations have ended", (n,))
                continue
            b = self.best(s)
            if ok:
                self.report(e, s, x)
            else:
                d = e.disc_of(s, b)
                self.require(e, s, "C04/best-returned", d == 0, "a run without a failure only ends with an error if there is no best-seen individual", (x,))
                self.require(e, s, "C02/best-returned", d == 0, "a run without a failure only ends with an error if there is no best-seen individual", (x,))
                nm = self.errname(e, s, x)
                self.require(e, s, "C02/no-individuals", nm == "NoIndividuals", "without any best-seen individual the run ends with 'no individuals'", (x,))
            if G(s, "tgt") is TRUE:
                self.require(e, s, "C04/target-report", ok, "a run that reached its target returns a report")
                continue
            if G(s, "term") is TRUE or G(s, "cancel") is TRUE:
                self.require(e, s, "C04/waits", EQ0(n), "a terminated run returns after the in-flight evaluations have ended", (n,))
                continue
            if self.conf[0]:
                self.require(e, s, "C03/exact", EQ0(lsub(self.done(s), self.N)), "a run that nothing ended early has processed exactly the maximum number of evaluations", (self.done(s), self.N))
                self.require(e, s, "C03/none-left", EQ0(n), "a run that nothing ended early leaves nothing in flight", (n,))
            else:
                self.require(e, s, "C03/endless", False, "a run without a maximum only ends by target, termination or failure")

    def errname(self, e, st, x):
        if x.tag == "V" and x.a[0].endswith("error::Error"):
            return self.p.vname(x.a[0], x.a[1])
        return None

    def report(self, e, st, x):
        x = e.deref_all(st, x)
        if not (x.tag == "V" and x.a[0] == REPORT):
            self.require(e, st, "C02/report", False, "the report is a final report", (x, T_("y", "?", (), (("unk", "report"),))))
            return
        f = {n: e.deref_all(st, x.a[2][i]) for i, (n, _) in enumerate(self.p.adts[REPORT]["variants"][0]["fields"])}
        acc, rej = G(st, "acc"), G(st, "rej")
        for c in ("C14", "C03"):
            self.require(e, st, c + "/count-completed", EQ0(lsub(lin_of(f["num_obj_func_eval_completed"]), acc)), "the completed count is the number of accepted evaluations", (f["num_obj_func_eval_completed"], acc))
            self.require(e, st, c + "/count-rejected", EQ0(lsub(lin_of(f["num_obj_func_eval_rejected"]), rej)), "the rejected count is the number of rejected evaluations", (f["num_obj_func_eval_rejected"], rej))
        bs = f["best_seen"]
        BS = "cambrian::result::BestSeen"
        g = lambda n: e.deref_all(st, fld(bs, 0, self.p.fidx(BS, 0, n)))
        b = self.best(st)
        pay = fld(b, 1, 0)
        self.require(e, st, "C02/report-objective", g("obj_func_val") is fld(pay, 0, 0), "the reported objective is that of the best-seen individual after the last result", (g("obj_func_val"), b))
        self.require(e, st, "C02/report-value", g("value") is app("json", fld(pay, 0, 1)), "the reported value is that of the best-seen individual after the last result", (g("value"), b))


BADV, UNDEC = "violated", "undecided"


# ---- models bound to one analysis ---------------------------------------------------------------------

def methods(p, adt, names):
    out = {}
    for n in names:
        m = P.method(p, adt, n)
        if m:
            out[n] = m
    return out


def install(e, c):
    O, F = e.overrides, e.futs
    p = c.p
    e.add_fin = lambda st, y: st.fi.__setitem__(y, (-FMAX, FMAX, False))
    ms = methods(p, ALGO, ["new", "next_individual", "process_individual_eval", "best_seen_final"])
    for n in ("new", "next_individual", "process_individual_eval", "best_seen_final"):
        if n not in ms:
            raise EngineLimit("AlgoContext::%s not found" % n)

    def algo_new(eng, st, a, info):
        spec = [x for x in a if x is T_("y", "spec", (), ("spec",))]
        c.require(eng, st, "C08/spec", bool(spec), "the algorithm is built for the given specification")
        body = p.bodies[ms["new"]]
        for i, x in enumerate(a):
            t = body.ltys[i + 1]
            x = eng.deref_all(st, x)
            if t.tag == "int":
                c.require(eng, st, "C02/sample-size", EQ0(lsub(lin_of(x), c.ss)), "the algorithm is built with the configured sample size", (x,))
            if t.tag == "adt" and t.a[0].endswith("Option") and t.a[1][0].tag == "adt" and t.a[1][0].a[0] == nodes.VAL:
                g = G(st, "guess")
                d = eng.disc_of(st, x)
                if c.conf[2]:
                    c.require(eng, st, "C08/guess", g is not None and d == 1 and eng.deref_all(st, fld(x, 1, 0)) is g, "the validated initial guess is the algorithm's initial value", (x,))
                else:
                    c.require(eng, st, "C08/guess", d == 0, "without a guess the specification's initial value is used", (x,))
        c.algos = getattr(c, "algos", 0) + 1
        return [(st, T_("vol", ALGO))]

    def algo_next(eng, st, a, info):
        y = eng.sym(ppx(info, "ind"), ("ind",))
        setg(st, "ind", y)
        return [(st, y)]

    def algo_process(eng, st, a, info):
        ind = val = None
        for i, x in enumerate(a):
            t = p.bodies[ms["process_individual_eval"]].ltys[i + 1]
            if t.tag == "adt" and t.a[0] == IND:
                ind = x
            elif t.tag == "adt" and t.a[0].endswith("Option"):
                val = eng.deref_all(st, x)
        if ind is None or val is None:
            raise EngineLimit("signature of process_individual_eval")
        return [(s, UNIT) for s in c.process(eng, st, ind, val)]

    def algo_best(eng, st, a, info):
        return [(st, c.best(st))]
    O[ms["new"]] = algo_new
    O[ms["next_individual"]] = algo_next
    O[ms["process_individual_eval"]] = algo_process
    O[ms["best_seen_final"]] = algo_best

    def to_json(eng, st, a, info):
        return [(st, app("json", eng.deref_all(st, a[0])))]
    for adt in (nodes.VAL,):
        m = P.method(p, adt, "to_json")
        if m:
            O[m] = to_json

    def from_json(eng, st, a, info):
        s1, s2 = st.copy(), st.copy()
        g = T_("y", "guessval", (), ("finite",))
        setg(s1, "guess", g)
        er = T_("y", "guesserr", (), ())
        setg(s2, "guessbad", TRUE)
        setg(s2, "guesserr", er)
        c.require(eng, st, "C11/guess-source", any(eng.deref_all(st, x) is c.guess for x in a), "the guess given by the user is the one validated")
        c.require(eng, st, "C11/guess-before-start", G(st, "pushed") is ZERO, "the guess is validated before any evaluation is started")
        return [(s1, OK(g)), (s2, ERR(er))]
    O["cambrian::value_util::from_json_value"] = from_json

    # -- the objective function
    def evaluate(eng, st, a, info):
        tys = [eng.deref_all(st, x) for x in a]
        # positions follow the trait: self, value, receiver, seed, individual id
        value, recv, seed, iid = tys[1], tys[2], tys[3], tys[4]
        return [(st, FUT("eval", value, recv, seed, iid))]

    def poll_eval(eng, st, v, pp):
        value, recv, seed, iid = v.a[2]
        recv = eng.deref_all(st, recv)
        if G(st, "probe") is TRUE:
            c.probe.append((st, value, seed, iid, recv.tag == "V" and recv.a[0] == "chan:bc_rx"))
            return []
        out = []
        for k in ("some", "none", "err"):
            s = st.copy()
            y = eng.sym(pp + ("ev", k), ("res",))
            r = OK(SOME(y)) if k == "some" else OK(NONE) if k == "none" else ERR(y)
            setg(s, "cur", T_("tup", (value, seed, iid, T_("tup", (S(k), y)))))
            out.append((s, r))
        return out
    O["AsyncObjectiveFunction::evaluate"] = evaluate
    F["fut:eval"] = poll_eval

    # -- the abort signal
    def oneshot_poll(eng, st, v, pp):
        if G(st, "term") is TRUE or G(st, "cancel") is TRUE:
            return [(st, ERR(eng.sym(pp + ("canceled",))))]
        s1, s2, s3 = st.copy(), st.copy(), st.copy()
        setg(s1, "term", TRUE)
        setg(s1, "ap", TRUE)
        setg(s2, "cancel", TRUE)
        setg(s2, "ap", TRUE)
        setg(s3, "ap", TRUE)
        return [(s1, OK(UNIT)), (s2, ERR(eng.sym(pp + ("canceled",)))), (s3, None)]
    F["chan:oneshot"] = oneshot_poll

    def try_recv(eng, st, a, info):
        r = eng.deref_all(st, a[0])
        if r.tag == "V" and r.a[0] == "chan:oneshot":
            out = []
            for s, x in oneshot_poll(eng, st, r, info.pp):
                if x is None:
                    out.append((s, OK(NONE)))
                else:
                    for s2, ok, y in M.res_cases(eng, s, x):
                        out.append((s2, OK(SOME(UNIT)) if ok else ERR(y)))
            return out
        if r.tag == "V" and r.a[0] == "chan:bc_rx":
            er = ERR(eng.sym(info.pp + ("tryrecv",)))
            if G(st, "probe") is TRUE:
                return [(st, OK(UNIT) if G(st, "ab") is TRUE else er)]
            out = [(st.copy(), er)]
            if G(st, "bc") is TRUE:
                out.append((st, OK(UNIT)))
            return out
        return None
    O["Receiver::try_recv"] = try_recv
    O["Receiver::is_empty"] = lambda eng, st, a, info: [(s, B(eng.disc_of(s, r) == 1)) for s, r in try_recv(eng, st, a, info)]

    def is_terminated(eng, st, a, info):
        r = eng.deref_all(st, a[0])
        if r.tag == "V" and r.a[0] == "chan:oneshot":
            return [(st, B(G(st, "term") is TRUE or G(st, "cancel") is TRUE))]
        if r.tag == "bag":
            return [(st, eng.is0(st, G(st, "n")))] if hasattr(eng, "is0") else None
        return None
    O["FusedFuture::is_terminated"] = is_terminated

    def bc_new(eng, st, a, info):
        return [(st, T_("tup", (CH("bc_tx"), CH("bc_rx"))))]
    O["async_broadcast::broadcast"] = bc_new

    def bc_send(eng, st, a, info):
        r = eng.deref_all(st, a[0])
        if not (r.tag == "V" and r.a[0] == "chan:bc_tx"):
            return None
        return [(st, FUT("bcast"))]
    O["Sender::broadcast"] = bc_send
    O["Sender::broadcast_direct"] = bc_send

    def poll_bcast(eng, st, v, pp):
        c.require(eng, st, "C15/one-broadcast", G(st, "bc") is not TRUE, "the abort signal is broadcast at most once (a second broadcast would wait forever)")
        if G(st, "bc") is TRUE:
            return []
        setg(st, "bc", TRUE)
        setg(st, "ap", FALSE)
        return [(st, OK(NONE))]
    F["fut:bcast"] = poll_bcast

    def try_bcast(eng, st, a, info):
        r = eng.deref_all(st, a[0])
        if not (r.tag == "V" and r.a[0] == "chan:bc_tx"):
            return None
        if G(st, "bc") is TRUE:
            return [(st, ERR(eng.sym(info.pp + ("full",))))]
        setg(st, "bc", TRUE)
        return [(st, OK(NONE))]
    O["Sender::try_broadcast"] = try_bcast

    def clone_chan(eng, st, a, info):
        r = eng.deref_all(st, a[0])
        if r.tag == "V" and r.a[0].startswith("chan:"):
            return [(st, r)]
        return None
    O["Clone::clone"] = clone_chan
    O["Receiver::new_receiver"] = clone_chan
    O["Sender::new_receiver"] = lambda eng, st, a, info: [(st, CH("bc_rx"))]

    # -- the detailed report channel
    def poll_send(eng, st, v, pp):
        ch = eng.deref_all(st, v.a[2][0])
        if not (ch.tag == "V" and ch.a[0] == "chan:items"):
            return [(st, eng.sym(pp + ("send",), ("unk", "send")))]
        s2 = st.copy()
        c.record(eng, st, v.a[2][1])
        setg(st, "ap", FALSE)
        setg(s2, "hung", TRUE)
        setg(s2, "ap", FALSE)
        return [(st, OK(UNIT)), (s2, ERR(eng.sym(pp + ("hungup",))))]
    F["fut:send"] = poll_send

    # -- the set of in-flight evaluations
    def bag(eng, st, x):
        x = eng.deref_all(st, x)
        return x.tag == "bag"

    def bag_new(eng, st, a, info):
        return [(st, T_("bag", "evals", ZERO))]

    def bag_push(eng, st, a, info):
        if not bag(eng, st, a[0]):
            return None
        return [(c.push(eng, st, a[1], info.pp), UNIT)]
    O["FuturesUnordered::new"] = bag_new
    O["FuturesUnordered::push"] = bag_push
    O["FuturesUnordered::len"] = lambda eng, st, a, info: [(st, G(st, "n"))] if bag(eng, st, a[0]) else None

    def bag_empty(eng, st, a, info):
        if not bag(eng, st, a[0]):
            return None
        x, y = eng.split(st, EQ0(G(st, "n")))
        return [(s, TRUE) for s in x] + [(s, FALSE) for s in y]
    O["FuturesUnordered::is_empty"] = bag_empty

    def dflt(eng, st, a, info):
        if info.dty.tag == "adt" and info.dty.a[0].endswith("FuturesUnordered"):
            return bag_new(eng, st, a, info)
        return None
    O["Default::default"] = dflt

    def poll_try_next(eng, st, v, pp):
        if not bag(eng, st, v.a[2][0]):
            return [(st, eng.sym(pp + ("next",), ("unk", "next")))]
        out = []
        for s, k in c.poll_bag(eng, st, pp):
            if k is None:
                out.append((s, None))
            elif k[0] == "end":
                out.append((s, OK(NONE)))
            else:
                for s2, ok, x in c.popped(eng, s, k[1]):
                    out.append((s2, OK(SOME(x)) if ok else ERR(x)))
        return out
    F["fut:try_next"] = poll_try_next

    def poll_next(eng, st, v, pp):
        if not bag(eng, st, v.a[2][0]):
            return [(st, eng.sym(pp + ("next",), ("unk", "next")))]
        out = []
        for s, k in c.poll_bag(eng, st, pp):
            if k is None:
                out.append((s, None))
            elif k[0] == "end":
                out.append((s, NONE))
            else:
                for s2, ok, x in c.popped(eng, s, k[1]):
                    out.append((s2, SOME(OK(x) if ok else ERR(x))))
        return out
    F["fut:next"] = poll_next

    def poll_some(eng, st, v, pp):
        out = []
        for s, x in poll_next(eng, st, v, pp):
            if x is None or x is NONE:
                out.append((s, None))
            else:
                out.append((s, x.a[2][0]))
        return out
    F["fut:next_some"] = poll_some

    def same_pending(k0, k1):
        g = {gcell("ap"), gcell("exh"), gcell("cur"), gcell("rec"), gcell("prc")}
        f = lambda k: frozenset((x, y) for x, y in k if x not in g and x.tag == "g")
        return f(k0) == f(k1)
    e.same_pending = same_pending


def analyse(prog):
    """all configurations of the controller: with and without maximum, target, guess"""
    out = []
    es = entry_of(prog)
    if len(es) != 1:
        return out, es
    for mx in (True, False):
        for tg in (True, False):
            for g in (False, True):
                if g and (mx is False or tg is True):
                    continue
                out.append(Ctrl(prog, mx, tg, g).run(es[0]))
    return out, es
