"""Abstract interpretation of the command line program: options in, run started with them, output directory
and standard output afterwards."""
from terms import *
from terms import T_, T
import engine as E
from engine import *
import models as M
import asyncm
from asyncm import G, setg, base_engine
import launch as L
from launch import app, pieces, fields_of
import nodes
import ctrl

MAIN = "cambrian::main"
PARSE = ("Parser::parse", "Parser::try_parse", "Parser::parse_from")
CRITS = {"max_obj_func_eval": "NumObjFuncEval", "target_obj_func_val": "TargetObjFuncVal", "terminate_after": "TerminateAfter"}
FAILED = ("ObjFuncProcFailed", "ObjFuncProcInvalidOutput")


def args_type(p):
    for a, d in p.adts.items():
        if a.startswith("cambrian::") and len(d["variants"]) == 1:
            ns = {n for n, t in d["variants"][0]["fields"]}
            if {"out_dir", "force", "spec_file"} <= ns:
                return a
    return None


def options(p):
    a = args_type(p)
    return [n for n, t in p.adts[a]["variants"][0]["fields"] if t.tag == "adt" and t.a[0].endswith("Option")]


class Cli(L.Base):
    def __init__(self, prog, given, exists, force, nosig=False, verbose=False):
        L.Base.__init__(self, prog)
        self.given, self.exists, self.force, self.nosig, self.verbose = set(given), exists, force, nosig, verbose

    def run(self):
        e = self.engine()
        p = self.p
        st = State()
        self.st0 = st
        e.unroll_all = 8
        O = e.overrides
        for n in ("unk", "bad", "launched", "told", "removed", "created", "ioerr", "failed", "exited"):
            setg(st, n, FALSE)
        setg(st, "exists", B(self.exists))
        setg(st, "out", COLL("vec", (), I(0)))
        setg(st, "files", COLL("vec", (), I(0)))
        at = args_type(p)
        self.v = {}
        fs = []
        for n, t in p.adts[at]["variants"][0]["fields"]:
            if t.tag == "bool":
                v = B({"force": self.force, "no_signal_result": self.nosig, "verbose": self.verbose}.get(n, False))
            elif t.tag == "adt" and t.a[0].endswith("Option"):
                if n in self.given:
                    x = self.opt(e, st, n, t.a[1][0])
                    self.v[n] = x
                    v = SOME(x)
                else:
                    v = NONE
            else:
                v = T_("y", ("arg", n), (), ())
            if n not in self.v:
                self.v[n] = v
            fs.append(v)
        self.args = T_("V", at, 0, tuple(fs))
        self.outd = self.v["out_dir"] if "out_dir" in self.given else None
        self.install(e)
        main = MAIN
        try:
            for s, r in e.run_fn(st, main, (), (), T_("fr", "root")):
                self.exit(e, s, e.deref_all(s, r))
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()

    def opt(self, e, st, n, t):
        y = T_("y", ("arg", n), (), ("u",) if t.tag == "int" else ("float",) if t.tag == "float" else ())
        if t.tag == "int":
            e.add_ge(st, lin_of(y))
            return lin_of(y)
        return y

    # ---- the world around the program
    def install(self, e):
        O = e.overrides
        p = self.p
        for k in PARSE:
            O[k] = lambda eng, st, a, info: [(st, self.args)]
        D = e.deref_all

        def fall(ok, err=True, bad=False):
            """a fallible operation: its result, or an error"""
            def h(eng, st, a, info):
                a = tuple(D(st, x) for x in a)
                s2 = st.copy()
                if bad:
                    setg(s2, "bad", TRUE)
                else:
                    setg(s2, "ioerr", TRUE)
                er = eng.sym(info.pp + ("err",), ("err",))
                return [(st, OK(ok(eng, st, a))), (s2, ERR(er))]
            return h
        O["fs::read_to_string"] = fall(lambda eng, st, a: app("text-of", a[0]), bad=True)
        O["read_to_string::read_to_string"] = O["fs::read_to_string"]
        specf = [f for f in p.bodies if f.endswith("spec_util::from_yaml_str")]
        for f in specf:
            O[f] = fall(lambda eng, st, a: app("spec-of", a[0]), bad=True)
        for k in ("parse::parse", "parse_duration::parse"):
            O[k] = fall(lambda eng, st, a: app("duration-of", a[0]), bad=True)
        for k in ("de::from_str", "serde_json::from_str", "from_str"):
            O[k] = fall(lambda eng, st, a: app("json-of", a[0]), bad=True)

        # -- errors with context
        def context(eng, st, a, info):
            x = D(st, a[0])
            out = []
            isopt = E._peel(info.atys[0]).a[0].endswith("Option") if info.atys and E._peel(info.atys[0]).tag == "adt" else False
            for s, ok, v in (M.opt_cases(eng, st, x) if isopt else M.res_cases(eng, st, x)):
                if ok:
                    out.append((s, OK(v)))
                    continue
                c = D(s, a[1])
                ss = [(s, None)]
                if c.tag == "cl" and info.key.endswith("with_context"):
                    ss = eng.call_closure(s, c, (), info.pp + ("ctx",))
                for s2, r in ss:
                    out.append((s2, ERR(T_("V", "cli:error", 0, (v if isinstance(v, T) else UNIT,)))))
            return out
        O["Context::context"] = context
        O["Context::with_context"] = context

        # -- directories and files
        O["Path::join"] = lambda eng, st, a, info: [(st, app("path", D(st, a[0]), D(st, a[1])))]
        O["PathBuf::join"] = O["Path::join"]

        def exists(eng, st, a, info):
            x = D(st, a[0])
            if x is not self.outd:
                if x.tag == "app" and x.a[0] is S("path"):
                    t, f = st, st.copy()
                    return [(t, TRUE), (f, FALSE)]
                return None
            return [(st, G(st, "exists"))]
        O["Path::exists"] = exists
        O["Path::is_dir"] = exists

        def try_exists(eng, st, a, info):
            rs = exists(eng, st, a, info)
            if rs is None:
                return None
            out = []
            for s, v in rs:
                s2 = s.copy()
                setg(s2, "ioerr", TRUE)
                out += [(s, OK(v)), (s2, ERR(eng.sym(info.pp + ("err",), ("err",))))]
            return out
        O["Path::try_exists"] = try_exists
        O["fs::exists"] = try_exists

        def metadata(eng, st, a, info):
            x = D(st, a[0])
            if x is not self.outd:
                return None
            if G(st, "exists") is TRUE:
                return [(st, OK(T_("y", "metadata", (), ())))]
            return [(st, ERR(eng.sym(info.pp + ("err",), ("err",))))]
        for k in ("fs::metadata", "Path::metadata"):
            O[k] = metadata

        def guard(eng, st, path, what):
            inside = under(D(st, path), self.outd)
            if self.exists and not self.force and self.outd is not None:
                if inside:
                    self.req(eng, st, "C16/untouched", False, "an existing output directory is left untouched without --force", (what,))
                else:
                    self.req(eng, st, "C16/untouched", True, "an existing output directory is left untouched without --force")
            return inside

        def remove(eng, st, a, info):
            x = D(st, a[0])
            guard(eng, st, x, "removed")
            self.req(eng, st, "C16/removes", x is self.outd and self.force, "only the output directory is removed, and only with --force", (x,))
            s2 = st.copy()
            setg(s2, "ioerr", TRUE)
            er = eng.sym(info.pp + ("err",), ("err",))
            if G(st, "exists") is not TRUE:
                return [(s2, ERR(er))]
            setg(st, "exists", FALSE)
            setg(st, "files", COLL("vec", (), I(0)))
            return [(st, OK(UNIT)), (s2, ERR(er))]
        O["fs::remove_dir_all"] = remove
        O["fs::remove_dir"] = remove

        def create(eng, st, a, info):
            x = D(st, a[0])
            if x is not self.outd:
                return None
            s2 = st.copy()
            er = eng.sym(info.pp + ("err",), ("err",))
            if G(st, "exists") is TRUE and not info.key.endswith("create_dir_all"):
                return [(s2, ERR(er))]
            setg(s2, "ioerr", TRUE)
            setg(st, "exists", TRUE)
            setg(st, "created", TRUE)
            return [(st, OK(UNIT)), (s2, ERR(er))]
        O["fs::create_dir_all"] = create
        O["fs::create_dir"] = create

        def write(eng, st, a, info):
            path, x = D(st, a[0]), D(st, a[1])
            guard(eng, st, path, "written")
            s2 = st.copy()
            setg(s2, "ioerr", TRUE)
            c = G(st, "files")
            setg(st, "files", COLL("vec", tuple(c.a[1]) + (ONE(path, x),), ladd(c.a[2], I(1))))
            return [(st, OK(UNIT)), (s2, ERR(eng.sym(info.pp + ("err",), ("err",))))]
        O["fs::write"] = write

        # -- output
        def put(eng, st, a, info):
            c = G(st, "out")
            setg(st, "out", COLL("vec", tuple(c.a[1]) + (ONE(NOKEY, D(st, a[0])),), ladd(c.a[2], I(1))))
            return [(st, UNIT)]
        O["stdio::_print"] = put
        O["io::_print"] = put
        O["stdio::_eprint"] = lambda eng, st, a, info: [(st, UNIT)]
        O["io::_eprint"] = O["stdio::_eprint"]
        def stream(eng, st, a, info):
            """text written to a string, to the standard streams or to a file"""
            t = E._peel(info.atys[0])
            if t.tag == "adt" and t.a[0].endswith("String"):
                return [(st, OK(UNIT))]
            x = D(st, a[0])
            if x.tag != "V" or x.a[0] not in ("cli:stdout", "cli:stderr", "cli:file"):
                return None
            s2 = st.copy()
            setg(s2, "ioerr", TRUE)
            er = ERR(eng.sym(info.pp + ("err",), ("err",)))
            y = D(st, a[1])
            if x.a[0] == "cli:stdout":
                put(eng, st, (y,), info)
            elif x.a[0] == "cli:file":
                guard(eng, st, x.a[2][0], "written")
                c = G(st, "files")
                setg(st, "files", COLL("vec", tuple(c.a[1]) + (ONE(x.a[2][0], y),), ladd(c.a[2], I(1))))
            return [(st, OK(UNIT)), (s2, er)]
        for k in ("write_fmt", "write_all", "write_str"):
            O["Write::" + k] = stream
        O["Write::flush"] = lambda eng, st, a, info: [(st, OK(UNIT))]
        for k in ("io::stdout", "stdio::stdout"):
            O[k] = lambda eng, st, a, info: [(st, T_("V", "cli:stdout", 0, ()))]
        for k in ("io::stderr", "stdio::stderr"):
            O[k] = lambda eng, st, a, info: [(st, T_("V", "cli:stderr", 0, ()))]
        for k in ("Stdout::lock", "Stderr::lock"):
            O[k] = lambda eng, st, a, info: [(st, D(st, a[0]))]

        def fcreate(eng, st, a, info):
            path = D(st, a[0])
            guard(eng, st, path, "written")
            s2 = st.copy()
            setg(s2, "ioerr", TRUE)
            return [(st, OK(T_("V", "cli:file", 0, (path,)))), (s2, ERR(eng.sym(info.pp + ("err",), ("err",))))]
        O["File::create"] = fcreate
        for k in ("sync_all", "sync_data"):
            O["File::" + k] = lambda eng, st, a, info: [(st, OK(UNIT))]

        def parent(eng, st, a, info):
            return [(st, SOME(app("parent", D(st, a[0])))), (st.copy(), NONE)]
        O["Path::parent"] = parent

        def exit(eng, st, a, info):
            x = lin_of(D(st, a[0]))
            self.exit(eng, st, None, eng.ev(st, EQ0(x)))
            return []
        O["process::exit"] = exit

        O["Path::display"] = lambda eng, st, a, info: [(st, app("display", D(st, a[0])))]

        # -- logging
        O["Builder::new"] = lambda eng, st, a, info: [(st, T_("V", "cli:logger", 0, ()))] if info.dty.tag == "adt" and "env_logger" in info.dty.a[0] else None
        for k in ("filter_level", "format_module_path", "format_target", "target", "filter", "filter_module", "format_timestamp", "parse_filters", "write_style", "is_test", "format_level", "format_indent"):
            O["Builder::" + k] = lambda eng, st, a, info: [(st, a[0])]
        O["Builder::init"] = lambda eng, st, a, info: [(st, UNIT)]
        O["Builder::try_init"] = lambda eng, st, a, info: [(st, OK(UNIT))]
        for k in ("env_logger::init", "log::set_max_level"):
            O[k] = lambda eng, st, a, info: [(st, UNIT)]

        # -- the run
        a, s = L.sync_launchers(p)
        self.launcher = s[0] if len(s) == 1 else None
        if self.launcher is None:
            raise EngineLimit("the launcher was not found uniquely")
        rt = p.bodies[self.launcher].ltys[0]
        self.report = T_("y", "final-report", (), ())
        ev = p.adts[L.ERRV]["variants"]

        def launch(eng, st, a, info):
            self.launch(eng, st, a)
            out = []
            setg(st, "launched", TRUE)
            s = st.copy()
            setg(s, "result", S("report"))
            out.append((s, OK(self.report)))
            for i, v in enumerate(ev):
                if v["name"] in FAILED or i == 0:
                    s = st.copy()
                    setg(s, "result", S(v["name"]))
                    setg(s, "failed", TRUE)
                    out.append((s, ERR(T_("V", L.ERRV, i, tuple(T_("y", ("failed", v["name"], n), (), ()) for n, t in v["fields"])))))
            return out
        O[self.launcher] = launch

    # ---- what the run is started with
    def launch(self, e, st, a):
        p = self.p
        self.req(e, st, "C16/options-first", G(st, "bad") is FALSE, "invalid options are rejected before the run is started")
        self.req(e, st, "C16/no-io-error", G(st, "ioerr") is FALSE, "a run is only started once its output directory is ready")
        self.req(e, st, "C16/one-run", G(st, "launched") is FALSE, "one run is started")
        if self.outd is not None:
            if self.exists and not self.force:
                self.req(e, st, "C16/refused", False, "a run into an existing output directory is refused without --force")
            else:
                self.req(e, st, "C16/out-dir", G(st, "exists") is TRUE and G(st, "created") is TRUE, "the output directory is made before the run is started")
        for t, x in zip(L.inputs(p, self.launcher), a):
            x = e.deref_all(st, x)
            t = E._peel(t)
            if t.tag == "adt" and t.a[0].endswith("spec::Spec"):
                self.req(e, st, "C16/spec", x is app("spec-of", app("text-of", self.v["spec_file"])), "the run uses the specification in the given file", (x,))
                self.req(e, st, "C10/spec-file", x is app("spec-of", app("text-of", self.v["spec_file"])), "the run uses the specification in the given file", (x,))
            elif t.tag == "adt" and t.a[0] == ctrl.CFG:
                for i, (n, ft) in enumerate(fields_of(p, t)):
                    o = {"num_concurrent": "num_concurrent", "individual_sample_size": "sample_size"}.get(n)
                    if o is None:
                        continue
                    y = e.deref_all(st, fld(x, 0, i))
                    c = "C05" if o == "num_concurrent" else "C08"
                    if o in self.given:
                        good = y.tag in ("i", "y", "at") and e.ev(st, EQ0(lsub(lin_of(y), lin_of(self.v[o])))) is True
                        self.req(e, st, "C16/config-min", e.ev(st, GE0(ladd(lin_of(self.v[o]), I(-1)))) is True, "a run is not started with a %s of zero" % o.replace("_", " "), (y,))
                        self.req(e, st, "%s/option/%s" % (c, o), good, "the run uses the given %s" % o.replace("_", " "), (y,))
                        self.req(e, st, "C16/option/%s" % o, good, "the run uses the given %s" % o.replace("_", " "), (y,))
                    elif o == "sample_size":
                        self.req(e, st, "C08/option/default", y is I(1), "without the option an individual is evaluated once", (y,))
                    else:
                        self.req(e, st, "C05/option/default", y.tag == "i" and cval(y) is None or (cval(y) or 0) >= 1, "without the option there is a positive default concurrency", (y,))
            elif t.tag == "param" and x.tag == "V" and x.a[0].endswith("ObjFuncProcessDef"):
                self.command(e, st, x)
            elif x.tag == "coll":
                self.criteria(e, st, x)
            elif t.tag == "adt" and t.a[0].endswith("Option"):
                k = E._peel(t.a[1][0])
                d = e.disc_of(st, x)
                if k.tag == "adt" and k.a[0].endswith("Value"):
                    g = "initial_guess" in self.given
                    ok = d == 1 and self.same(e, st, fld(x, 1, 0), app("json-of", self.v["initial_guess"])) if g else d == 0
                    for c in ("C11", "C16"):
                        self.req(e, st, c + "/option/initial_guess", ok, "the run uses the given initial guess, and only when one is given", (x,))
                else:
                    o = self.outd is not None
                    self.req(e, st, "C14/files", d == (1 if o else 0), "detailed reporting is on exactly when an output directory is given", (x,))
                    self.req(e, st, "C16/files", d == (1 if o else 0), "detailed reporting is on exactly when an output directory is given", (x,))
                    if o and d == 1:
                        y = e.deref_all(st, fld(x, 1, 0))
                        ps = [e.deref_all(st, fld(y, 0, i)) for i, (n, ft) in enumerate(fields_of(p, k) or ())]
                        for q in ps:
                            self.req(e, st, "C16/files-inside", under(q, self.outd), "the run's files are in the output directory", (q,))
                        self.req(e, st, "C16/files-distinct", len(set(ps)) == len(ps), "the run's files are different files", tuple(ps))

    def command(self, e, st, x):
        p = self.p
        for i, (n, t) in enumerate(p.adts[x.a[0]]["variants"][0]["fields"]):
            y = e.deref_all(st, x.a[2][i])
            if t.tag == "adt" and t.a[0].endswith("OsString"):
                self.req(e, st, "C16/program", y is self.v["obj_func_program"], "the given program is run", (y,))
            elif t.tag == "adt" and t.a[0].endswith("Vec"):
                self.req(e, st, "C16/program-args", y is self.v["obj_func_program_args"], "the given program is run with the given arguments", (y,))
            elif t.tag == "adt" and t.a[0].endswith("Option"):
                g = "kill_obj_func_after" in self.given
                d = e.disc_of(st, y)
                ok = d == 1 and self.same(e, st, fld(y, 1, 0), app("duration-of", self.v["kill_obj_func_after"])) if g else d == 0
                for c in ("C07", "C16"):
                    self.req(e, st, c + "/option/kill_obj_func_after", ok, "evaluations have the given time limit, and only when one is given", (y,))

    def criteria(self, e, st, x):
        p = self.p
        ct = L.crit_type(p)
        vs = p.adts[ct]["variants"]
        if any(s.tag != "one" for s in x.a[1]):
            raise EngineLimit("the list of termination criteria")
        got = {}
        for s in x.a[1]:
            y = e.deref_all(st, s.a[1])
            if y.tag != "V" or y.a[0] != ct:
                raise EngineLimit("a termination criterion")
            n = vs[y.a[1]]["name"]
            self.req(e, st, "C16/criteria-once", n not in got, "no criterion is given twice", (y,))
            got[n] = y
        for o, n in CRITS.items():
            c = "C03" if n == "NumObjFuncEval" else "C04"
            ok = (n in got) == (o in self.given)
            if ok and n in got:
                y = e.deref_all(st, got[n].a[2][0])
                want = app("duration-of", self.v[o]) if n == "TerminateAfter" else self.v[o]
                ok = self.same(e, st, y, want)
            for cc in (c, "C16"):
                self.req(e, st, "%s/option/%s" % (cc, o), ok, "the run has the given %s as criterion, and only when it is given" % o.replace("_", " "), (got.get(n, UNIT),))
        for cc in ("C04", "C16"):
            self.req(e, st, cc + "/option/no_signal_result", ("Signal" in got) == (not self.nosig), "an interrupt ends the run with its result unless that is disabled")

    # ---- how the program ends
    def exit(self, e, st, r, code=None):
        self.exits.append(1)
        cases = [(st, code is True, None)] if r is None else [(s, ok, x) for s, ok, x in M.res_cases(e, st, r)]
        for s, ok, x in cases:
            res = G(s, "result")
            if not ok and r is None and code is None:
                continue
            if G(s, "launched") is not TRUE:
                self.req(e, s, "C16/not-run", not ok, "a program run that starts no optimisation ends with an error")
                if self.outd is not None and self.exists and not self.force:
                    self.req(e, s, "C16/refused", not ok, "a run into an existing output directory is refused without --force")
                continue
            out = [y.a[1] for y in G(s, "out").a[1]]
            fs = [(y.a[0], y.a[1]) for y in G(s, "files").a[1]]
            if res is S("report"):
                if not ok:
                    self.req(e, s, "C16/success", G(s, "ioerr") is TRUE, "a run that ends with a report is a success")
                    continue
                self.stdout(e, s, out)
                if self.outd is not None:
                    ok2 = [1 for q, c in fs if under(q, self.outd) and any(y is self.report or mentions(y, self.report) for y in subterms(c))]
                    self.req(e, s, "C16/summary", len(ok2) >= 1, "with an output directory the summary of the report is written into it")
                continue
            self.req(e, s, "C16/failure-status", not ok, "a run that fails ends with a non-zero exit status")
            self.req(e, s, "C06/failure-status", not ok, "a run that fails ends with a non-zero exit status")
            self.req(e, s, "C16/failure-stdout", not out, "a run that fails prints no result", tuple(out))
            if self.outd is not None and res.a[0] in FAILED and G(s, "ioerr") is not TRUE:
                info = [f for f in self.p.adts[L.ERRV]["variants"] if f["name"] == res.a[0]][0]["fields"]
                y = T_("y", ("failed", res.a[0], info[0][0]), (), ())
                got = set()
                for q, c in fs:
                    if under(q, self.outd):
                        got |= {w for w in self.parts(info[0][1], y, c)}
                need = {"obj_func_arg", "seed", "stdout", "stderr"}
                for n in sorted(need):
                    self.req(e, s, "C16/dump/" + n, n in got, "with an output directory the failing evaluation's %s is written into it" % n.replace("_", " "), (tuple(q for q, c in fs),))

    def parts(self, t, y, c):
        """the fields of the failed evaluation that a text mentions"""
        out = set()

        def walk(t, x, nm, depth):
            if any(z is x or mentions(z, x) for z in subterms(c)):
                out.add(nm)
            if depth > 3:
                return
            for i, (n, ft) in enumerate(fields_any(self.p, t) or ()):
                walk(ft, fld(x, 0, i), n, depth + 1)
        walk(t, y, "all", 0)
        return out

    def stdout(self, e, st, out):
        p = self.p
        ps = []
        for x in out:
            q = pieces(x)
            if q is None:
                self.req(e, st, "C16/stdout-line", False, "on success exactly one line is printed: the best-seen parameters", (x, T_("y", "?", (), (("unk", "text"),))))
                return
            ps += q
        rt = p.bodies[self.launcher].ltys[0].a[1][0]
        best = None
        for i, (n, t) in enumerate(fields_of(p, rt) or ()):
            for j, (m, ft) in enumerate(fields_any(p, t) or ()):
                if ft.tag == "adt" and ft.a[0].startswith("serde_json") and ft.a[0].endswith("Value"):
                    best = fld(fld(self.report, 0, i), 0, j)
            if t.tag == "adt" and t.a[0].startswith("serde_json") and t.a[0].endswith("Value"):
                best = fld(self.report, 0, i)
        if best is None:
            raise EngineLimit("the best-seen value of the report")
        args = [q for q in ps if q[0] == "arg"]
        lit = "".join(q[1] for q in ps if q[0] == "lit")
        isbest = len(args) == 1 and args[0][2] and (args[0][1] is best or args[0][1] is app("jsonstr", best))
        for c in ("C16", "C02"):
            self.req(e, st, c + "/stdout-line", isbest and lit == "\n" and ps[-1][0] == "lit", "on success exactly one line is printed: the best-seen parameters", (repr(lit),) + tuple(q[1] for q in args))


class Summary(L.Base):
    """the text form of the final report"""
    LABELS = (("best", "obj_func_val", "C02"), ("completed", "num_obj_func_eval_completed", "C14"), ("rejected", "num_obj_func_eval_rejected", "C14"))

    def run(self, fn):
        e = self.engine()
        p = self.p
        st = State()
        setg(st, "unk", FALSE)
        setg(st, "text", COLL("vec", (), I(0)))
        D = e.deref_all

        def put(eng, st, a, info):
            c = G(st, "text")
            setg(st, "text", COLL("vec", tuple(c.a[1]) + (ONE(NOKEY, D(st, a[1])),), ladd(c.a[2], I(1))))
            s2 = st.copy()
            return [(st, OK(UNIT)), (s2, ERR(UNIT))]
        for k in ("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str", "Formatter::write_char"):
            e.overrides[k] = put
        rep = T_("y", "final-report", (), ())
        where = {}

        def walk(t, x):
            for i, (n, ft) in enumerate(fields_any(p, t) or ()):
                where.setdefault(n, (fld(x, 0, i), ft))
                walk(ft, fld(x, 0, i))
        t = E._peel(p.bodies[fn].ltys[1])
        walk(t, rep)
        try:
            for s, r in e.run_fn(st, fn, (), (rep, T_("y", "formatter", (), ())), T_("fr", "root")):
                for s2, ok, x in M.res_cases(e, s, D(s, r)):
                    self.exits.append(1)
                    if not ok:
                        continue
                    ps = []
                    for c in G(s2, "text").a[1]:
                        q = pieces(c.a[1])
                        if q is None:
                            raise EngineLimit("the text of the report")
                        ps += q
                    lines = L.cells_of(ps, "\n")
                    for word, n, c in self.LABELS:
                        if n not in where:
                            continue
                        ls = [l for l in lines if any(q[0] == "lit" and word in q[1].lower() for q in l)]
                        want = where[n][0]
                        good = len(ls) == 1 and [q for q in ls[0] if q[0] == "arg"] and all(q[0] != "arg" or q[2] and eqv(e, s2, q[1], want) for q in ls[0])
                        for cc in (c, "C16"):
                            self.req(e, s2, "%s/summary/%s" % (cc, n), bool(good), "the summary shows the report's %s" % n.replace("_", " "), tuple(q[1] for l in ls for q in l))
        except EngineLimit as x:
            self.limit = (str(x), tuple(e.stack)[-3:])
        return self.finish()


def eqv(e, st, a, b):
    a = e.deref_all(st, a) if isinstance(a, T) else a
    if a is b:
        return True
    return isinstance(a, T) and a.tag == "i" and e.ev(st, EQ0(lsub(a, lin_of(b)))) is True


def displays(p):
    """the text form of the report type the launcher returns"""
    a, s = L.sync_launchers(p)
    if len(s) != 1:
        return []
    rt = p.bodies[s[0]].ltys[0].a[1][0]
    return [im["items"]["fmt"] for im in p.impls if (im.get("trait") or "").split("::")[-1] == "Display" and im["self"].tag == "adt" and im["self"].a[0] == rt.a[0] and im["items"].get("fmt") in p.bodies]


def fields_any(p, t):
    t = E._peel(t)
    if t.tag == "adt" and t.a[0] in p.adts and len(p.adts[t.a[0]]["variants"]) == 1:
        return [(n, p._subst(x, t.a[1])) for n, x in p.adts[t.a[0]]["variants"][0]["fields"]]
    return None


def mentions(z, x):
    """z is a part of x that was taken apart"""
    while isinstance(z, T) and z.tag == "fld":
        z = z.a[0]
        if z is x:
            return True
    return False


def under(q, d):
    while q.tag == "app" and q.a[0] is S("path"):
        q = q.a[1]
        if q is d:
            return True
    return q is d and d is not None


def confs(p, deep=False):
    """which options are given; does the output directory exist; --force; --no-signal-result; --verbose"""
    os_ = options(p)
    out = []
    for g in [()] + [(o,) for o in os_] + [tuple(x for x in os_ if x != o) for o in os_] + [tuple(os_)]:
        out.append((g, False, False, False, False))
    for ex in (False, True):
        for fo in (False, True):
            for ve in (False, True):
                out.append((("out_dir",), ex, fo, False, ve))
                out.append((tuple(os_), ex, fo, True, ve))
    out.append(((), False, False, True, True))
    out.append((("max_obj_func_eval",), False, True, False, False))
    return list(dict.fromkeys(out))
