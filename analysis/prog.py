"""Loads the MIR dumps: interned types, definitions, bodies, control-flow structure."""
import json, re
from terms import T, T_

USIZE = T_("int", "usize")
BOOL = T_("bool")


class Body:
    pass


class Prog:
    def __init__(self, files):
        self.defs = {}
        self.adts = {}
        self.bodies = {}
        self.impls = []
        self.tenv = []
        for f in files:
            self._load(json.load(open(f)), f)
        self._short = {}

    def _load(self, d, f):
        types = d["types"]
        memo = {}

        def ty(i):
            if i is None:
                return T_("lt")
            if isinstance(i, dict):
                return T_("const", i["const"])
            if i in memo:
                r = memo[i]
                return r if r is not None else T_("rec", i)
            memo[i] = None
            t = types[i]
            k = t["k"]
            if k in ("bool", "char", "str", "never"):
                r = T_(k)
            elif k in ("int", "float"):
                r = T_(k, t["n"])
            elif k in ("adt", "fndef", "closure", "coroutine"):
                r = T_(k, t["id"], tuple(ty(x) for x in t["args"]))
            elif k == "array":
                r = T_(k, ty(t["e"]), t["len"])
            elif k in ("slice",):
                r = T_(k, ty(t["e"]))
            elif k in ("ref", "ptr"):
                r = T_(k, ty(t["e"]))
            elif k == "tuple":
                r = T_(k, tuple(ty(x) for x in t["e"]))
            elif k == "param":
                r = T_(k, t["idx"], t["n"])
            elif k == "dyn":
                r = T_(k, str(t.get("trait")))
            else:
                r = T_(k, t["s"])
            memo[i] = r
            return r

        for k, v in d["defs"].items():
            if v is None:
                continue
            v = dict(v)
            if "impl_self" in v:
                v["impl_self"] = ty(v["impl_self"])
            if "impl_trait_args" in v:
                v["impl_trait_args"] = [ty(x) for x in v["impl_trait_args"]]
            old = self.defs.get(k)
            if old is None or v["local"]:
                self.defs[k] = v
        for k, v in d["adts"].items():
            if v is None or k in self.adts:
                continue
            v = dict(v)
            v["variants"] = [dict(name=x["name"], discr=x["discr"], fields=[(y["name"], ty(y["ty"])) for y in x["fields"]]) for x in v["variants"]]
            self.adts[k] = v
        for b in d["bodies"]:
            self._body(b, ty, f)
        for im in d["impls"]:
            im = dict(im)
            im["self"] = ty(im["self"])
            im["targs"] = tuple(ty(x) for x in im.get("targs", []))
            self.impls.append(im)

    def _body(self, b, ty, f):
        o = Body()
        o.id = b["id"]
        o.kind = b["kind"]
        o.span = b["span"]
        o.argc = b["argc"]
        o.generics = b["generics"]
        o.coroutine = b["coroutine"]
        o.parent = b["parent"]
        o.spread = b.get("spread")
        o.ltys = [ty(l["ty"]) for l in b["locals"]]
        o.lnames = [l.get("name") for l in b["locals"]]

        def fix(x):
            if isinstance(x, dict):
                r = {}
                for k, v in x.items():
                    if k in ("ty", "dty", "from") and isinstance(v, int) and not isinstance(v, bool):
                        r[k] = ty(v)
                    elif k == "aty":
                        r[k] = [ty(y) for y in v]
                    elif k in ("args", "rargs") and "o" in x and x["o"] == "const":
                        r[k] = tuple(ty(y) for y in v)
                    elif k == "args" and x.get("r") == "agg":
                        r[k] = tuple(ty(y) for y in v)
                    elif k in ("p", "dst") and v is not None:
                        r[k] = fixp(v)
                    else:
                        r[k] = fix(v)
                return r
            if isinstance(x, list):
                return [fix(y) for y in x]
            return x

        def fixp(p):
            out = []
            for e in p[1]:
                if e[0] == ".":
                    out.append((".", e[1], ty(e[2])))
                else:
                    out.append(tuple(e))
            return (p[0], tuple(out))

        o.blocks = []
        for bl in b["blocks"]:
            q = Body()
            q.cleanup = bl["cl"]
            q.st = [fix(s) for s in bl["st"]]
            q.tm = fix(bl["tm"])
            o.blocks.append(q)
        self._cfg(o)
        # the bin crate carries the same crate name; its local bodies win only if new
        if o.id not in self.bodies:
            self.bodies[o.id] = o

    def _cfg(self, o):
        n = len(o.blocks)
        o.succ = []
        for b in o.blocks:
            t = b.tm
            k = t["t"]
            if k in ("goto", "drop", "assert"):
                s = [t["to"]]
            elif k == "switch":
                s = [x[1] for x in t["tgts"]] + [t["else"]]
            elif k == "call":
                s = [t["to"]] if t["to"] is not None else []
            elif k == "yield":
                s = [t["to"]]
            else:
                s = []
            o.succ.append(s)
        # reverse post order, natural loops
        order = []
        seen = set()
        stack = [(0, iter(o.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(o.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        o.rpo = {b: i for i, b in enumerate(order)}
        # blocks that only run when a suspended coroutine is dropped
        late = []
        for b in order:
            d = o.blocks[b].tm.get("drop") if o.blocks[b].tm["t"] == "yield" else None
            if d is None or d in seen:
                continue
            seen.add(d)
            stack = [(d, iter(o.succ[d]))]
            part = []
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(o.succ[s])))
                        break
                else:
                    part.append(x)
                    stack.pop()
            late = part[::-1] + late
        for b in late:
            o.rpo[b] = len(o.rpo)
        preds = {}
        for b in order:
            for s in o.succ[b]:
                preds.setdefault(s, []).append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds.get(b, []) if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while o.rpo[x] > o.rpo[y]:
                            x = idom[x]
                        while o.rpo[y] > o.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        o.loops = {}
        for b in order:
            for s in o.succ[b]:
                # s dominates b ?
                y = b
                while y != s and y != 0:
                    y = idom[y]
                if y == s:
                    body = o.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        z = st.pop()
                        if z not in body:
                            body.add(z)
                            st += preds.get(z, [])

    # ---- types ----------------------------------------------------------------------------------
    def subst(self, t, genv):
        if not genv:
            return t
        return self._subst(t, genv)

    def _subst(self, t, genv):
        k = t.tag
        if k == "param":
            i = t.a[0]
            return genv[i] if i < len(genv) and genv[i] is not None else t
        if k in ("adt", "fndef", "closure", "coroutine"):
            return T_(k, t.a[0], tuple(self._subst(x, genv) for x in t.a[1]))
        if k in ("ref", "ptr", "slice"):
            return T_(k, self._subst(t.a[0], genv))
        if k == "array":
            return T_(k, self._subst(t.a[0], genv), t.a[1])
        if k == "tuple":
            return T_(k, tuple(self._subst(x, genv) for x in t.a[0]))
        if k == "alias":
            return t
        return t

    # ---- call graph ----------------------------------------------------------------------------------
    def refs(self, bid):
        """function-like items mentioned by a body: called functions, function values, closures"""
        c = getattr(self, "_refs", None)
        if c is None:
            c = self._refs = {}
        if bid in c:
            return c[bid]
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("o") == "const":
                    t = x.get("ty")
                    if isinstance(t, T) and t.tag in ("fndef", "closure"):
                        out.add(t.a[0])
                    if x.get("rfn"):
                        out.add(x["rfn"])
                    if x.get("fn"):
                        out.add(x["fn"])
                if x.get("r") == "agg" and x.get("ak") in ("closure", "coroutine"):
                    out.add(x["id"])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        b = self.bodies[bid]
        for bl in b.blocks:
            for st in bl.st:
                walk(st)
            walk(bl.tm)
        c[bid] = out
        return out

    def reach(self, roots, stop=()):
        """bodies reachable through the call graph (trait calls resolved where the compiler resolved them)"""
        seen = set()
        todo = [r for r in roots]
        while todo:
            x = todo.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            if x in self.bodies:
                todo += list(self.refs(x))
        return seen

    def recursive(self, fnid):
        c = getattr(self, "_rec", None)
        if c is None:
            c = self._rec = {}
        if fnid not in c:
            c[fnid] = fnid in self.bodies and fnid in self.reach([y for y in self.refs(fnid)])
        return c[fnid]

    def ctor_of(self, fnid):
        """(adt, variant index) built by a constructor function"""
        x = fnid
        if x.endswith("}"):
            x = x[:x.rindex("::{")]
        for y in (x, re.sub(r"#\d+$", "", x)):
            if y in self.adts:
                return y, 0
            a, _, v = y.rpartition("::")
            if a in self.adts:
                i = self.vidx(a, v)
                if i is not None:
                    return a, i
        raise KeyError(fnid)

    def adt_of(self, t):
        while t.tag in ("ref", "ptr"):
            t = t.a[0]
        return t.a[0] if t.tag == "adt" else None

    def nvariants(self, adt):
        return len(self.adts[adt]["variants"])

    def vidx(self, adt, name):
        for i, v in enumerate(self.adts[adt]["variants"]):
            if v["name"] == name:
                return i
        return None

    def fidx(self, adt, variant, name):
        for i, (n, _) in enumerate(self.adts[adt]["variants"][variant]["fields"]):
            if n == name:
                return i
        return None

    def vname(self, adt, i):
        return self.adts[adt]["variants"][i]["name"]

    def field_ty(self, adt, variant, idx, args):
        fs = self.adts[adt]["variants"][variant]["fields"]
        if idx >= len(fs):
            return T_("other", "?")
        return self._subst(fs[idx][1], args)

    def short(self, d):
        """dispatch key of a definition"""
        r = self._short.get(d)
        if r is None:
            df = self.defs[d]
            m = df.get("method")
            tr = df.get("trait") or df.get("impl_trait")
            if tr and m:
                tr = re.sub(r"::<.*", "", tr)
                tr = re.sub(r"<.*", "", tr)
                r = tr.split("::")[-1] + "::" + m
            else:
                n = df["name"]
                n = _strip(n)
                p = n.split("::")
                p = [x for x in p if x]
                r = "::".join(p[-2:])
            self._short[d] = r
        return r

    def find_impl(self, trait, self_ty, method):
        """local impl item of trait for a type; returns (def id, substitution) or None"""
        for im in self.impls:
            if im.get("trait") != trait and (im.get("trait") or "").split("::")[-1] != trait:
                continue
            m = {}
            if _match(im["self"], self_ty, m) and method in im["items"]:
                n = max(m) + 1 if m else 0
                return im["items"][method], tuple(m.get(i) for i in range(n)), im
        return None


def _match(p, t, m):
    if p.tag == "param":
        if p.a[0] in m:
            return True
        m[p.a[0]] = t
        return True
    if p.tag != t.tag:
        return False
    for x, y in zip(p.a, t.a):
        if isinstance(x, T):
            if not _match(x, y, m):
                return False
        elif isinstance(x, tuple):
            if len(x) != len(y) or not all(_match(u, v, m) for u, v in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


def _strip(n):
    """remove generic argument lists, turn `<impl X>` into X"""
    out = []
    i = 0
    while i < len(n):
        if n.startswith("::<impl ", i):
            # a::<impl [T]>::iter  ->  a::[T]::iter
            j = _close(n, i + 2)
            inner = n[i + 8:j]
            inner = inner.split(" for ")[-1]
            out.append("::" + inner.replace("::", "."))
            i = j + 1
        elif n.startswith("::<", i):
            i = _close(n, i + 2) + 1
        elif n[i] == "<":
            j = _close(n, i)
            inner = n[i + 1:j]
            out.append(re.sub(r"<.*>", "", inner.split(" as ")[0]).split("::")[-1] if i == 0 else "")
            i = j + 1
        else:
            out.append(n[i])
            i += 1
    return "".join(out)


def _close(n, i):
    d = 0
    while i < len(n):
        if n[i] == "<":
            d += 1
        elif n[i] == ">" and n[i - 1] != "-":
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(n) - 1


def method(p, adt, name, trait=None):
    """inherent (or trait) method of a local type"""
    for k, v in p.defs.items():
        s = v.get("impl_self")
        if s is None or not k.endswith("::" + name):
            continue
        t = s
        while t.tag in ("ref", "ptr"):
            t = t.a[0]
        if t.tag == "adt" and t.a[0] == adt and (v.get("impl_trait") or None) == trait or (t.tag == "adt" and t.a[0] == adt and trait and str(v.get("impl_trait", "")).split("::")[-1] == trait):
            return k
    return None
