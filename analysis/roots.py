"""Analysis roots: entry points of the code under analysis with symbolic arguments, recursion cut by
contracts derived from the argument types; every distinct way a recursive function is re-entered
becomes a root of its own."""
import time
from terms import *
from terms import T_, T
import engine as E
from engine import *
import nodes
from nodes import NodeDomain, SN, VN, SPEC, VAL, check_conf, tainted, Problem

STDRNG = "rand::rngs::std::StdRng"
MP = "cambrian::meta::MutationParams"
CP = "cambrian::meta::CrossoverParams"


def float_fields(p, adt):
    return [(i, n) for i, (n, t) in enumerate(p.adts[adt]["variants"][0]["fields"])]


def local_closure(p, adt, acc=None):
    """local struct types reachable through the fields of adt"""
    acc = set() if acc is None else acc
    if adt in acc or adt not in p.adts:
        return acc
    acc.add(adt)

    def walk(t):
        if t.tag == "adt":
            if t.a[0].startswith("cambrian"):
                local_closure(p, t.a[0], acc)
            for x in t.a[1]:
                walk(x)
        elif t.tag in ("ref", "ptr", "slice", "array"):
            walk(t.a[0])
        elif t.tag == "tuple":
            for x in t.a[0]:
                walk(x)
    for v in p.adts[adt]["variants"]:
        for _, t in v["fields"]:
            walk(t)
    return acc


def const_fields(p):
    """float fields of local structs that are only ever given one literal value"""
    vals = {}
    bad = set()
    local = set(a for a in p.adts if a.startswith("cambrian") and len(p.adts[a]["variants"]) == 1)
    fl = {}
    for a in local:
        for j, (n, t) in enumerate(p.adts[a]["variants"][0]["fields"]):
            if t.tag == "float":
                fl[(a, 0, j)] = n

    def root_ty(b, l):
        return b.ltys[l]

    def field_hits(b, place):
        """struct fields that a place projection ends in"""
        local, proj = place
        if not proj:
            return
        ty = b.ltys[local]
        cur = ty
        for n, e in enumerate(proj):
            if e[0] == "*":
                cur = cur.a[0] if cur.tag in ("ref", "ptr") else (cur.a[1][0] if cur.tag == "adt" and cur.a[1] else cur)
            elif e[0] == ".":
                if cur.tag == "adt":
                    yield (cur.a[0], 0, e[1]), n == len(proj) - 1
                cur = e[2]
            elif e[0] in ("[]", "[c]"):
                cur = cur.a[0] if cur.tag in ("slice", "array") else cur
    for bid, b in p.bodies.items():
        for bl in b.blocks:
            for s in bl.st:
                if s["s"] != "=":
                    continue
                for k, last in field_hits(b, s["p"]):
                    if k in fl and last:
                        bad.add(k)
                v = s["v"]
                if v["r"] == "ref" and v.get("mut"):
                    for k, last in field_hits(b, v["p"]):
                        if k in fl and last:
                            bad.add(k)
                if v["r"] == "agg" and v.get("ak") == "adt" and v["id"] in local:
                    for j, o in enumerate(v["ops"]):
                        k = (v["id"], 0, j)
                        if k in fl:
                            c = o.get("v") if o["o"] == "const" else None
                            if isinstance(c, dict) and "float" in c:
                                vals.setdefault(k, set()).add(float(c["float"]))
                            else:
                                # functional update / move of the same field of another instance is harmless
                                if o["o"] in ("copy", "move") and any(x == k and last for x, last in field_hits(b, o["p"])):
                                    continue
                                if p.defs.get(bid, {}).get("derived"):
                                    continue
                                bad.add(k)
            t = bl.tm
            if t["t"] == "call" and t["dst"]:
                for k, last in field_hits(b, t["dst"]):
                    if k in fl and last:
                        bad.add(k)
    return {k: FC(list(v)[0]) for k, v in vals.items() if k not in bad and len(v) == 1}


class Root:
    def __init__(self, name, fn, args, spec=None, post=None):
        self.name = name


class Analysis:
    """one engine run per root; roots are discovered through recursion"""

    def __init__(self, prog, mode="gen", setup=None):
        self.p = prog
        self.mode = mode
        self.setup = setup
        self.todo = []
        self.done = {}
        self.problems = []
        self.limits = []
        self.panics = []
        self.engines = []
        self.genv = {}
        self.noearly = set()  # functions whose early cut turned out not to fit: they are analysed in line
        self.soft = set()
        self.bad_roots = set()
        self.rootfn = None
        self.hard = set()
        self.cf = const_fields(prog)
        self.vol = {STDRNG}
        for a in ("cambrian::path::PathContext", "cambrian::path::PathNodeContext"):
            self.vol |= local_closure(prog, a)

    EARLY = ("S", "N", "P", "v", "unit")

    def misfits(self):
        """functions that were cut at their first call although they do not return a conforming value
        for their specification argument: a helper with another purpose, not a violation"""
        return (self.soft - self.hard) & self.bad_roots

    # ---- symbolic inputs ----------------------------------------------------------------------------
    def engine(self):
        d = NodeDomain(self.p)
        e = Engine(self.p, d)
        e.volatile = set(self.vol)
        e.constfields = self.cf
        e.contract_for = self.contract
        e.an = self
        if self.setup:
            self.setup(e)
        return e

    def param_sym(self, e, adt, tag):
        """parameters inside their documented ranges"""
        fs = []
        for j, n in float_fields(self.p, adt):
            y = T_("y", ("par", tag, adt, j), (), ())
            if n.endswith("prob") or "pressure" in n:
                if self.mode == "prob0" and adt == MP:
                    fs.append(FC(0.0))
                    continue
                if self.mode == "prob1" and adt == MP and n.endswith("prob"):
                    fs.append(FC(1.0))
                    continue
                e.dom.fintab[y] = (0.0, 1.0, False)
            elif n.endswith("scale"):
                e.dom.fintab[y] = (5e-324, FMAX, False)
            fs.append(y)
        return V(adt, 0, *fs)

    def param_ok(self, e, st, t, adt):
        """are these parameters inside their documented ranges?"""
        bad = []
        for j, n in float_fields(self.p, adt):
            x = fld(t, 0, j)
            iv = e.fint(st, x)
            if n.endswith("prob") or "pressure" in n:
                if self.mode == "prob0" and adt == MP:
                    ok = iv == (0.0, 0.0, False)
                elif self.mode == "prob1" and adt == MP and n.endswith("prob"):
                    ok = iv == (1.0, 1.0, False)
                else:
                    ok = iv[0] >= 0 and iv[1] <= 1 and not iv[2]
            elif n.endswith("scale"):
                # any number: a scale that the distribution rejects is handled by the caller's own checks
                ok = iv[0] > 0 and iv[1] < INF and not iv[2]
            else:
                ok = True
            if not ok:
                bad.append((n, x, iv))
        return bad

    # ---- argument patterns ---------------------------------------------------------------------------
    def pattern(self, e, st, fn, args):
        """abstract description of the arguments of a recursive call, and the problems with them"""
        b = self.p.bodies[fn]
        tys = [b.ltys[i + 1] for i in range(b.argc)]
        specs = []
        pat = [None] * len(args)
        probs = []
        args = [e.deref_all(st, a) for a in args]
        for i, (a, ty) in enumerate(zip(args, tys)):
            t = E._peel(ty)
            if t.tag == "adt" and t.a[0] in (SN,):
                if not e.dom.is_spec(a):
                    raise EngineLimit("recursion on a specification node of unknown origin: " + show(a)[:80])
                specs.append((i, a))
                pat[i] = ("S",)
        for i, (a, ty) in enumerate(zip(args, tys)):
            if pat[i]:
                continue
            t = E._peel(ty)
            while t.tag == "adt" and t.a[0] == "alloc::boxed::Box":
                t = t.a[1][0]
            if t.tag == "adt" and t.a[0] == VN:
                pat[i], pr = self.link(e, st, a, specs)
                probs += pr
            elif t.tag == "slice" or (t.tag == "adt" and t.a[0].endswith("Vec")):
                el = E._peel(t.a[0] if t.tag == "slice" else t.a[1][0])
                ne = e.ent_ge(st, ladd(LEN(a), I(-1))) or nodes.witness_nonempty(e, st, a)
                opt = el.tag == "adt" and el.a[0] == OPT
                if opt:
                    el = E._peel(el.a[1][0])
                while el.tag == "adt" and el.a[0] == "alloc::boxed::Box":
                    el = el.a[1][0]
                if el.tag == "adt" and el.a[0] == VN:
                    lk = None
                    for s2, k, v in nodes.elements(e, st, a):
                        if opt:
                            for s3, pv in e.mod.opt_cases(e, s2, v):
                                if pv is not None:
                                    l2, pr = self.link(e, s3, pv, specs)
                                    probs += pr
                                    lk = l2
                        else:
                            l2, pr = self.link(e, s2, v, specs)
                            probs += pr
                            lk = l2
                    pat[i] = ("OL" if opt else "L", lk[1] if lk else 0, ne)
                elif el.tag == "str" or (el.tag == "adt" and el.a[0].endswith("String")):
                    pat[i] = ("any",)
                else:
                    raise EngineLimit("recursion argument of type %s" % show(ty))
            elif t.tag == "adt" and t.a[0] == OPT and E._peel(t.a[1][0]).tag == "adt" and E._peel(t.a[1][0]).a[0] in (VN, "alloc::boxed::Box"):
                lk = None
                kinds = set()
                for s2, v in e.mod.opt_cases(e, st.copy(), a):
                    kinds.add(v is not None)
                    if v is not None:
                        lk, pr = self.link(e, s2, v, specs)
                        probs += pr
                pat[i] = ("ON", lk[1] if lk else 0, tuple(sorted(kinds)))
            elif t.tag == "adt" and t.a[0] in (MP, CP):
                bad = self.param_ok(e, st, a, t.a[0])
                for n, x, iv in bad:
                    probs.append(Problem("%s leaves its range %s" % (n, (iv,)), x, st))
                pat[i] = ("P", t.a[0])
            elif t.tag == "adt" and t.a[0] in self.vol:
                pat[i] = ("v", t.a[0])
            elif t.tag == "adt" and t.a[0].startswith("cambrian") and self.unit_like(t, a):
                pat[i] = ("unit", t.a[0], a)
            elif t.tag == "bool":
                r = e.ev(st, a) if e.is_pred(a) else None
                pat[i] = ("b", r)
            elif t.tag == "int" and isconst(lin_of(a)):
                pat[i] = ("n", cval(lin_of(a))) if abs(cval(lin_of(a))) <= 1 else ("any",)
            else:
                pat[i] = ("any",)
        return tuple(pat), probs, specs

    def unit_like(self, t, a):
        """a value without any data in it"""
        return a.tag == "V" and all(self.unit_like(None, x) for x in a.a[2])

    def link(self, e, st, a, specs):
        """which specification argument does this value belong to?"""
        best = None
        for k, (i, s) in enumerate(specs):
            pr = check_conf(e, st, a, s)
            if not pr:
                return ("N", k), []
            if best is None:
                best = (("N", k), pr)
        if best is None:
            raise EngineLimit("value without a specification in a recursive call")
        return best

    def inputs(self, e, fn, pat):
        b = self.p.bodies[fn]
        args = []
        specs = []
        for i, p in enumerate(pat):
            if p[0] == "S":
                s = T_("y", ("spec", len(specs)), (), ("specnode",))
                specs.append(s)
        k = 0
        st = State()
        for i, p in enumerate(pat):
            ty = b.ltys[i + 1]
            t = E._peel(ty)
            if p[0] == "S":
                a = specs[k]
                k += 1
            elif p[0] == "N":
                a = T_("y", ("val", i), (), (("conf", specs[p[1]]),))
            elif p[0] in ("L", "OL"):
                a = T_("y", ("lst", i), (), (("confl" if p[0] == "L" else "confol", specs[p[1]]),) + (("nonempty",) if p[2] else ()))
            elif p[0] == "ON":
                a = T_("y", ("optv", i), (), (("confo", specs[p[1]]),))
                if p[2] == (True,):
                    st.disc[a] = 1
                elif p[2] == (False,):
                    a = NONE
            elif p[0] == "P":
                a = self.param_sym(e, p[1], i)
            elif p[0] == "v":
                a = T_("vol", p[1])
            elif p[0] == "unit":
                a = p[2]
            elif p[0] == "b":
                a = T_("y", ("arg", i), (), ()) if p[1] is None else B(p[1])
            elif p[0] == "n":
                a = I(p[1])
            else:
                a = e.fresh(t, ("arg", i))
            args.append(self.byref(e, st, a, ty, i))
        return st, args, specs

    def byref(self, e, st, a, ty, i):
        """arguments passed by mutable reference live in a cell of their own"""
        return a

    # ---- contracts -----------------------------------------------------------------------------------
    def contract(self, e, st, fn, args, info, early=False):
        if self.p.defs.get(fn, {}).get("kind") not in ("Fn", "AssocFn") and fn not in self.p.bodies:
            return None
        pat, probs, specs = self.pattern(e, st, fn, args)
        if early and (fn in self.noearly or len(specs) != 1 or probs or any(p[0] not in self.EARLY for p in pat)):
            return None
        (self.soft if early else self.hard).add(fn)
        for pr in probs:
            self.problem(e, "precondition of the recursive call to %s" % fn, pr, info)
        if self.mode == "prob0":
            pat = pat
        for a, p in zip(args, pat):
            if p and p[0] == "L" and not p[2]:
                self.problem(e, "precondition of the recursive call to %s" % fn, Problem("the list of parents is not known to be non-empty", e.deref_all(st, a), st), info)
        pat = tuple((p[0], p[1], True) if p and p[0] == "L" else p for p in pat)
        if (fn, pat) not in self.done and (fn, pat) not in self.todo:
            self.todo.append((fn, pat))
            self.genv[fn] = info.genv
        rty = self.p.subst(self.p.bodies[fn].ltys[0], info.genv)
        for i, a in enumerate(args):
            if a.tag == "ref":
                v = e.deref_all(st, a)
                ty = E._peel(self.p.bodies[fn].ltys[i + 1])
                if v.tag != "vol" and self.p.bodies[fn].ltys[i + 1].tag == "ref" and self.is_mut(fn, i):
                    raise EngineLimit("recursion through mutable state")
        return self.result(e, st, fn, pat, args, specs, rty, info)

    def is_mut(self, fn, i):
        return True

    def result(self, e, st, fn, pat, args, specs, rty, info):
        pp = info.pp + ("rec",)
        return self.mk_result(e, st, fn, pat, args, specs, rty, pp)

    def mk_result(self, e, st, fn, pat, args, specs, rty, pp):
        t = rty
        while t.tag == "adt" and t.a[0] == "alloc::boxed::Box":
            t = t.a[1][0]
        if t.tag == "adt" and t.a[0] == VN:
            if self.mode in ("prob0",):
                vals = [e.deref_all(st, a) for a, p in zip(args, pat) if p and p[0] == "N"]
                if len(vals) == 1:
                    return [(st, vals[0])]
            if not specs:
                raise EngineLimit("recursion that produces a value without a specification argument")
            vals = tuple(e.deref_all(st, a) for a, p in zip(args, pat) if p and p[0] == "N")
            lists = tuple(e.deref_all(st, a) for a, p in zip(args, pat) if p and p[0] == "L")
            return [(st, T_("y", pp, e.idx, (("conf", specs[0][1]), ("rec", fn, vals, lists))))]
        if t.tag == "tuple" and not t.a[0]:
            return [(st, UNIT)]
        if t.tag == "adt" and t.a[0] == OPT:
            s2 = st.copy()
            return [(st, NONE)] + [(s, SOME(v)) for s, v in self.mk_result(e, s2, fn, pat, args, specs, t.a[1][0], pp)]
        if t.tag == "adt" and t.a[0] == RES:
            s2 = st.copy()
            return [(s2, ERR(e.fresh(t.a[1][1], pp + ("e",))))] + [(s, OK(v)) for s, v in self.mk_result(e, st, fn, pat, args, specs, t.a[1][0], pp)]
        raise EngineLimit("contract for result type " + show(rty))

    def problem(self, e, where, pr, info=None):
        if where == "result":
            self.bad_roots.add(self.rootfn)
        self.problems.append((where, pr, tuple(e.stack), e.sps[-1] if e.sps else ""))

    # ---- running -------------------------------------------------------------------------------------
    def run_entry(self, name, fn, mk, post, genv=()):
        """mk(engine) -> (state, args); post(engine, state, result, args) records problems"""
        e = self.engine()
        e.rootname = name
        self.rootfn = fn
        self.engines.append((name, e))
        t0 = time.time()
        try:
            st, args = mk(e)
            self.init = st
            res = e.run_fn(st, fn, genv, tuple(args), T_("fr", "root"))
            for s, r in res:
                post(e, s, r, args)
            for ev in e.all_events("panic"):
                self.panics.append((name, ev))
        except EngineLimit as x:
            self.limits.append((name, str(x), tuple(e.stack)[-3:]))
        e.time = time.time() - t0
        return e

    def run_todo(self, post):
        while self.todo:
            fn, pat = self.todo.pop()
            self.done[(fn, pat)] = True

            def mk(e):
                st, args, specs = self.inputs(e, fn, pat)
                e.specs = specs
                return st, args
            self.run_entry(fn + show_pat(pat), fn, mk, post, self.genv.get(fn, ()))


def show_pat(p):
    return "[" + ",".join(":".join(str(y).split("::")[-1] for y in x) for x in p) + "]"
